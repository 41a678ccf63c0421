//! The search engine: fixed work split in seeded chunks over threads, failure
//! capture, shrinking, replay files, known findings, evidence.

use crate::case::Case;
use crate::rng::Rng;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum Res {
    /// The case ran and agreed with the oracle: class index, and whether it counts as non-trivial.
    Ok(u8, bool),
    /// Outside of the domain of the property (only shrinking produces these).
    Skip,
    Fail(String),
}

pub struct Phase {
    pub name: String,
    pub count: u64,
    /// Cases handed to a thread at a time.
    pub chunk: u64,
    pub gen: Box<dyn Fn(u64, &mut Rng) -> Case + Sync + Send>,
    /// The phase enumerates its (finite) space completely.
    pub exhaustive: bool,
}

pub fn phase(name: impl Into<String>, count: u64, gen: impl Fn(u64, &mut Rng) -> Case + Sync + Send + 'static) -> Phase {
    Phase { name: name.into(), count, chunk: 2048, gen: Box::new(gen), exhaustive: false }
}
pub fn slow_phase(name: impl Into<String>, count: u64, gen: impl Fn(u64, &mut Rng) -> Case + Sync + Send + 'static) -> Phase {
    Phase { chunk: 16, ..phase(name, count, gen) }
}
pub fn full_phase(name: impl Into<String>, count: u64, gen: impl Fn(u64, &mut Rng) -> Case + Sync + Send + 'static) -> Phase {
    Phase { exhaustive: true, ..phase(name, count, gen) }
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub rule: &'static str,
    pub classes: &'static [&'static str],
    /// Phases for a given effort (1 = quick).
    pub phases: fn(effort: u64) -> Vec<Phase>,
    pub check: fn(&Case) -> Res,
    pub describe: fn(&Case) -> String,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if loc.starts_with("pbt/") || loc.contains("/harness/pbt/") {
            let _ = std::io::Write::write_fmt(&mut std::io::stderr(), format_args!("ERROR: the harness panicked at {}: {}\n", loc, msg));
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn in_harness(loc: &str) -> bool {
    loc.starts_with("pbt/") || loc.starts_with("ops/") || loc.contains("/pbt/src/") || loc.contains("/ops/src/")
}

pub enum Outcome {
    Ok(u8, bool),
    Skip,
    Fail(String),
    /// The harness itself failed: an error of the check, never a violation.
    Broken(String),
}

pub fn run_case(p: &Prop, c: &Case) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(c))) {
        Ok(Res::Ok(k, n)) => Outcome::Ok(k, n),
        Ok(Res::Skip) => Outcome::Skip,
        Ok(Res::Fail(m)) => Outcome::Fail(m),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if in_harness(&loc) {
                Outcome::Broken(format!("panic in the harness at {}: {}", loc, msg))
            } else {
                Outcome::Fail(format!("the library panicked at {}: {}", loc, msg))
            }
        }
    }
}

struct Bitset(Vec<AtomicU64>);
impl Bitset {
    fn new(log2: u32) -> Bitset {
        Bitset((0..1usize << (log2 - 6)).map(|_| AtomicU64::new(0)).collect())
    }
    fn insert(&self, h: u64) -> bool {
        let i = (h >> 6) as usize & (self.0.len() - 1);
        let m = 1u64 << (h & 63);
        if self.0[i].load(Relaxed) & m != 0 {
            return false;
        }
        self.0[i].fetch_or(m, Relaxed) & m == 0
    }
}

pub struct Config {
    pub seed: u64,
    pub tier: String,
    pub effort: u64,
    pub threads: usize,
    pub dir: String,
    pub hang_secs: u64,
}

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// Entries of known-findings.txt: `property=<id> case: <case line> what: <text>`.
pub fn known_findings(dir: &str, id: &str) -> Vec<(Case, String)> {
    let mut v = vec![];
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    for l in text.lines() {
        let l = l.trim();
        if l.starts_with('#') || l.starts_with("fixed:") || l.is_empty() {
            continue;
        }
        let Some(rest) = l.strip_prefix(&format!("property={} ", id)) else { continue };
        let Some((c, what)) = rest.strip_prefix("case: ").and_then(|r| r.split_once(" what: ")) else { continue };
        if let Some(c) = Case::from_line(c) {
            v.push((c, what.to_string()));
        }
    }
    v
}

fn load_regress(dir: &str, id: &str) -> Vec<Case> {
    let text = std::fs::read_to_string(format!("{}/regress/{}.txt", dir, id)).unwrap_or_default();
    text.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()).filter_map(Case::from_line).collect()
}

fn shrink(p: &'static Prop, start: Case, msg: String) -> (Case, String) {
    // In a thread of its own, under a deadline: a candidate may send a broken
    // library into an endless loop.
    let best = std::sync::Arc::new(Mutex::new((start.clone(), msg)));
    let b2 = best.clone();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut cur = start;
        let mut evals = 0u64;
        let t0 = Instant::now();
        'outer: loop {
            let w = cur.weight();
            for cand in cur.shrinks() {
                if cand.weight() >= w {
                    continue;
                }
                evals += 1;
                if evals > 200_000 || t0.elapsed() > Duration::from_secs(30) {
                    break 'outer;
                }
                if let Outcome::Fail(m) = run_case(p, &cand) {
                    *b2.lock().unwrap() = (cand.clone(), m);
                    cur = cand;
                    continue 'outer;
                }
            }
            break;
        }
        let _ = tx.send(());
    });
    let _ = rx.recv_timeout(Duration::from_secs(60));
    let r = best.lock().unwrap().clone();
    r
}

pub fn write_replay(cfg: &Config, p: &Prop, c: &Case, msg: &str) -> String {
    let d = format!("{}/replays", cfg.dir);
    let _ = std::fs::create_dir_all(&d);
    let path = format!("{}/{}-{:016x}.txt", d, p.id, c.hash());
    let text = format!(
        "# {}: {}\n# {}\n# {}\n# replay: ./check --replay {}\nproperty={}\ncase={}\n",
        p.id,
        p.title,
        (p.describe)(c).replace('\n', " "),
        msg.replace('\n', " "),
        path,
        p.id,
        c.to_line()
    );
    let _ = std::fs::write(&path, text);
    path
}

fn all_phases(p: &Prop, cfg: &Config) -> Vec<Phase> {
    let mut phases = vec![];
    let reg = load_regress(&cfg.dir, p.id);
    if !reg.is_empty() {
        let n = reg.len() as u64;
        phases.push(phase("regressions", n, move |i, _| reg[i as usize].clone()));
    }
    phases.extend((p.phases)(cfg.effort));
    phases
}

fn id_hash(p: &Prop) -> u64 {
    p.id.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64))
}

/// 32-byte records: thread, phase, first case, last case (written when a chunk starts).
struct Progress(Option<std::fs::File>);
impl Progress {
    fn open() -> Progress {
        Progress(std::env::var("APF_PROGRESS").ok().and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()))
    }
    fn note(&self, thread: usize, phase: u64, lo: u64, hi: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut b = vec![];
            for x in [1, phase, lo, hi] {
                b.extend_from_slice(&x.to_le_bytes());
            }
            let _ = f.write_all_at(&b, thread as u64 * 32);
        }
    }
    fn read(path: &str) -> Vec<(u64, u64, u64)> {
        let b = std::fs::read(path).unwrap_or_default();
        b.chunks_exact(32)
            .filter_map(|c| {
                let w: Vec<u64> = c.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
                (w[0] == 1).then_some((w[1], w[2], w[3]))
            })
            .collect()
    }
}

pub enum Death {
    Signal(i32),
    Hang,
}

/// Runs this program in a process of its own, with a time limit.
fn sub(args: &[String], progress: &str, secs: u64) -> Result<i32, Death> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("current_exe");
    let mut c = std::process::Command::new(exe)
        .args(args)
        .env("APF_PROGRESS", progress)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    // A hang is `secs` of processor time: a starved or suspended machine is none.
    let cpu = |pid: u32| -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        (n(11) + n(12)) / 100
    };
    for k in 0..secs * 50 * 4 {
        if let Ok(Some(st)) = c.try_wait() {
            return match st.signal() {
                Some(s) => Err(Death::Signal(s)),
                None => Ok(st.code().unwrap_or(3)),
            };
        }
        std::thread::sleep(Duration::from_millis(20));
        if k % 50 == 0 && cpu(c.id()) >= secs {
            let _ = c.kill();
            let _ = c.wait();
            return Err(Death::Hang);
        }
    }
    let _ = c.kill();
    let _ = c.wait();
    Ok(3)
}

/// Does this single case kill or hang a process of its own?
fn confirm(p: &Prop, c: &Case) -> Option<String> {
    match sub(&["case".into(), p.id.into(), c.to_line()], "", 45) {
        Err(Death::Signal(9 | 15)) => None, // killed from outside
        Err(Death::Signal(s)) => Some(format!("the process died of signal {} (stack overflow, abort or exhausted memory)", s)),
        Err(Death::Hang) => Some("the operation does not finish (45 s of processor time)".into()),
        Ok(_) => None,
    }
}

/// For replays: like `run_case`, but survives cases that kill or hang the process.
pub fn run_guarded(p: &Prop, c: &Case) -> Outcome {
    match confirm(p, c) {
        Some(m) => Outcome::Fail(m),
        None => run_case(p, c),
    }
}

fn report(cfg: &Config, p: &Prop, c: &Case, msg: &str) {
    let path = write_replay(cfg, p, c, msg);
    println!("failing case: {}", (p.describe)(c));
    println!("  {}", msg);
    println!("VIOLATION property={} replay={}", p.id, path);
}

/// Runs the cases of one chunk, noting each before it starts.
pub fn run_chunk(p: &'static Prop, cfg: &Config, pi: u64, lo: u64, hi: u64) -> i32 {
    let phases = all_phases(p, cfg);
    let prog = Progress::open();
    let seed = cfg.seed;
    let t = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let Some(ph) = phases.get(pi as usize) else { return 3 };
        for i in lo..hi.min(ph.count) {
            prog.note(0, pi, i, i + 1);
            let mut rng = Rng::new(seed, id_hash(p), pi, i);
            let c = (ph.gen)(i, &mut rng);
            if let Outcome::Fail(_) = run_case(p, &c) {
                return 1;
            }
        }
        0
    });
    t.unwrap().join().unwrap_or(3)
}

/// `run` in a child process, so that a library that kills the process (endless
/// recursion, abort, exhausted memory) is still reported as a failing case.
pub fn supervise(p: &'static Prop, cfg: &Config) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = std::env::temp_dir();
    let path = |s: &str| dir.join(format!("apf-{}-{}-{}", p.id, std::process::id(), s)).to_string_lossy().into_owned();
    let (main, part) = (path("run"), path("part"));
    let _ = std::fs::write(&main, b"");
    let exe = std::env::current_exe().expect("current_exe");
    let st = std::process::Command::new(exe).args(["run-inner", p.id]).env("APF_PROGRESS", &main).status();
    let code = match st.map(|s| (s.code(), s.signal())) {
        Ok((Some(c), _)) => c,
        Ok((_, sig)) => {
            println!("note: the search process died of signal {:?}", sig);
            let mut code = 3;
            let phases = all_phases(p, cfg);
            let case = |pi: u64, i: u64| {
                let ph = &phases[pi as usize];
                (ph.gen)(i, &mut Rng::new(cfg.seed, id_hash(p), pi, i))
            };
            for (pi, lo, hi) in Progress::read(&main) {
                if pi as usize >= phases.len() {
                    continue;
                }
                let _ = std::fs::write(&part, b"");
                let args = ["chunk".into(), p.id.to_string(), pi.to_string(), lo.to_string(), hi.to_string()];
                let end = sub(&args, &part, 100);
                if !matches!(end, Ok(0 | 3)) {
                    let Some(&(pi, i, _)) = Progress::read(&part).first() else { continue };
                    let c = case(pi, i);
                    let found = match end {
                        Ok(_) => match run_case(p, &c) {
                            Outcome::Fail(m) => Some(m),
                            _ => None,
                        },
                        Err(_) => confirm(p, &c),
                    };
                    if let Some(m) = found {
                        report(cfg, p, &c, &m);
                        write_evidence_stub(cfg, p, &(p.describe)(&c), &m);
                        code = 1;
                        break;
                    }
                }
            }
            code
        }
        Err(e) => {
            println!("ERROR: {}", e);
            3
        }
    };
    let _ = std::fs::remove_file(&main);
    let _ = std::fs::remove_file(&part);
    code
}

fn write_evidence_stub(cfg: &Config, p: &Prop, sample: &str, msg: &str) {
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{}]}},\n  \"wall_s\": 0,\n  \"violations\": 1\n}}\n",
        json(p.id),
        json(&cfg.tier),
        cfg.seed,
        json(p.rule),
        json(&format!("{}: {}", sample, msg))
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.dir));
    let _ = std::fs::write(format!("{}/evidence/{}.json", cfg.dir, p.id), text);
}

/// Returns the process exit code.
pub fn run(p: &'static Prop, cfg: &Config) -> i32 {
    let t0 = Instant::now();
    let prog: &'static Progress = Box::leak(Box::new(Progress::open()));
    let known = known_findings(&cfg.dir, p.id);
    let mut known_hit = 0;
    for (c, what) in &known {
        match run_case(p, c) {
            Outcome::Fail(m) => {
                println!("KNOWN-FINDING: property={} {} [{}: {}]", p.id, what, (p.describe)(c), m);
                known_hit += 1;
            }
            Outcome::Broken(m) => {
                println!("ERROR: {}", m);
                return 3;
            }
            _ => println!("note: listed finding no longer fails: property={} {}", p.id, what),
        }
    }

    let phases: &'static [Phase] = Box::leak(all_phases(p, cfg).into_boxed_slice());

    // Global schedule of chunks.
    let mut sched = vec![];
    for (pi, ph) in phases.iter().enumerate() {
        let mut i = 0;
        while i < ph.count {
            sched.push((pi, i, (i + ph.chunk).min(ph.count)));
            i += ph.chunk;
        }
    }
    struct Shared {
        next: AtomicU64,
        stop: AtomicBool,
        done: AtomicU64,
        fails: Mutex<Vec<(Case, String)>>,
        broken: Mutex<Option<String>>,
        seen: Bitset,
        distinct: AtomicU64,
        evals: AtomicU64,
        skips: AtomicU64,
        known_skipped: AtomicU64,
        hist: Vec<AtomicU64>,
        progress: Vec<(AtomicU64, AtomicU64)>,
    }
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        done: AtomicU64::new(0),
        fails: Mutex::new(vec![]),
        broken: Mutex::new(None),
        seen: Bitset::new(match cfg.effort { 0..=1 => 29, 2..=4 => 31, _ => 33 }),
        distinct: AtomicU64::new(0),
        evals: AtomicU64::new(0),
        skips: AtomicU64::new(0),
        known_skipped: AtomicU64::new(0),
        hist: (0..256).map(|_| AtomicU64::new(0)).collect(),
        progress: (0..cfg.threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect(),
    }));
    let sched: &'static [(usize, u64, u64)] = Box::leak(sched.into_boxed_slice());
    let known_cases: &'static [Case] = Box::leak(known.iter().map(|k| k.0.clone()).collect::<Vec<_>>().into_boxed_slice());
    let seed = cfg.seed;
    let idh = id_hash(p);
    for t in 0..cfg.threads {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let mut hist = [0u64; 256];
                loop {
                    let k = sh.next.fetch_add(1, Relaxed) as usize;
                    if k >= sched.len() || sh.stop.load(Relaxed) {
                        break;
                    }
                    let (pi, lo, hi) = sched[k];
                    let ph = &phases[pi];
                    let (mut evals, mut skips, mut distinct) = (0, 0, 0);
                    sh.progress[t].0.store(pi as u64, Relaxed);
                    prog.note(t, pi as u64, lo, hi);
                    for i in lo..hi {
                        sh.progress[t].1.store(i + 1, Relaxed);
                        let mut rng = Rng::new(seed, idh, pi as u64, i);
                        let c = (ph.gen)(i, &mut rng);
                        match run_case(p, &c) {
                            Outcome::Ok(cl, nt) => {
                                evals += 1;
                                hist[cl as usize] += 1;
                                if nt && sh.seen.insert(c.hash()) {
                                    distinct += 1;
                                }
                            }
                            Outcome::Skip => skips += 1,
                            Outcome::Fail(m) => {
                                evals += 1;
                                if known_cases.contains(&c) {
                                    sh.known_skipped.fetch_add(1, Relaxed);
                                    continue;
                                }
                                sh.fails.lock().unwrap().push((c, m));
                                sh.stop.store(true, Relaxed);
                                break;
                            }
                            Outcome::Broken(m) => {
                                *sh.broken.lock().unwrap() =
                                    Some(format!("{} [phase {} case {}: {}]", m, ph.name, i, c.to_line()));
                                sh.stop.store(true, Relaxed);
                                break;
                            }
                        }
                        if sh.stop.load(Relaxed) {
                            break;
                        }
                    }
                    sh.evals.fetch_add(evals, Relaxed);
                    sh.skips.fetch_add(skips, Relaxed);
                    sh.distinct.fetch_add(distinct, Relaxed);
                }
                for (i, h) in hist.iter().enumerate() {
                    if *h != 0 {
                        sh.hist[i].fetch_add(*h, Relaxed);
                    }
                }
                sh.progress[t].0.store(u64::MAX, Relaxed);
                sh.done.fetch_add(1, Relaxed);
            })
            .unwrap();
    }

    // Wait, watching for threads that stop making progress.
    let mut last: Vec<(u64, u64, u64)> = vec![(u64::MAX, 0, 0); cfg.threads];
    let mut hung: Option<Case> = None;
    let mut polls = 0u64; // of 5 ms at least
    let hang_polls = cfg.hang_secs * 200;
    let mut stop_seen: Option<Instant> = None;
    loop {
        if sh.done.load(Relaxed) == cfg.threads as u64 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
        polls += 1;
        if sh.stop.load(Relaxed) {
            let t = *stop_seen.get_or_insert_with(Instant::now);
            if t.elapsed() > Duration::from_secs(5) {
                break;
            }
        }
        for (t, l) in last.iter_mut().enumerate() {
            let now = (sh.progress[t].0.load(Relaxed), sh.progress[t].1.load(Relaxed));
            if (l.0, l.1) != now {
                *l = (now.0, now.1, polls);
            } else if hung.is_none() && now.0 != u64::MAX && polls - l.2 > hang_polls {
                let ph = &phases[now.0 as usize];
                let mut rng = Rng::new(seed, idh, now.0, now.1 - 1);
                let c = (ph.gen)(now.1 - 1, &mut rng);
                hung = Some(c);
            }
        }
        if hung.is_some() && stop_seen.is_none() {
            // Let the other threads finish what they can: one of them may find a failure.
            let busy = last.iter().filter(|l| polls - l.2 < 1000).count();
            if busy == 0 || polls > hang_polls * 2 {
                break;
            }
        }
    }

    if let Some(m) = sh.broken.lock().unwrap().clone() {
        println!("ERROR: {}", m);
        return 3;
    }
    let fails = sh.fails.lock().unwrap().clone();
    let mut violations = 0;
    let mut vio_text = vec![];
    if let Some((c, m)) = fails.first() {
        // Confirm (the case must fail again, on its own) and minimise.
        match run_case(p, c) {
            Outcome::Fail(_) => {}
            _ => {
                println!("ERROR: a failure did not reproduce: {} ({})", c.to_line(), m);
                return 3;
            }
        }
        let (c2, m2) = shrink(p, c.clone(), m.clone());
        let (c2, m2) = if known_cases.contains(&c2) { (c.clone(), m.clone()) } else { (c2, m2) };
        report(cfg, p, &c2, &m2);
        violations = 1;
        vio_text.push(format!("{}: {}", (p.describe)(&c2), m2));
    } else if let Some(c) = hung {
        match confirm(p, &c) {
            Some(m) => {
                report(cfg, p, &c, &m);
                violations = 1;
                vio_text.push(format!("{}: {}", (p.describe)(&c), m));
            }
            None => {
                println!("ERROR: inconclusive: no progress for {} s on {}", cfg.hang_secs, c.to_line());
                return 4;
            }
        }
    }

    // Evidence.
    let evals = sh.evals.load(Relaxed);
    let mut samples = vec![];
    for (pi, ph) in phases.iter().enumerate() {
        for k in [ph.count / 3, ph.count - 1] {
            if samples.len() < 40 && violations == 0 {
                let mut rng = Rng::new(seed, idh, pi as u64, k);
                let c = (ph.gen)(k, &mut rng);
                samples.push(format!("[{} #{}] {}", ph.name, k, (p.describe)(&c)));
            }
        }
    }
    if samples.is_empty() {
        samples = vio_text.clone();
    }
    let phases_json: Vec<String> = phases
        .iter()
        .map(|ph| format!("{{\"name\": {}, \"cases\": {}, \"exhaustive\": {}}}", json(&ph.name), ph.count, ph.exhaustive))
        .collect();
    let hist_json: Vec<String> = p
        .classes
        .iter()
        .enumerate()
        .map(|(i, n)| format!("{}: {}", json(n), sh.hist[i].load(Relaxed)))
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n      {}\n    ],\n    \"classes\": {{{}}},\n    \"phases\": [\n      {}\n    ],\n    \"out_of_domain\": {},\n    \"known_findings_seen\": {}\n  }},\n  \"assumptions\": [\"the reference model in harness/pbt/src is right\", \"distinct_nontrivial is a lower bound: cases are counted through a hash bitmap\"],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        json(p.id),
        json(&cfg.tier),
        cfg.seed,
        evals,
        sh.distinct.load(Relaxed),
        json(p.rule),
        samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",\n      "),
        hist_json.join(", "),
        phases_json.join(",\n      "),
        sh.skips.load(Relaxed),
        known_hit,
        wall,
        violations
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.dir));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", cfg.dir, p.id), text) {
        println!("ERROR: cannot write evidence: {}", e);
        return 3;
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        if violations == 0 { "held" } else { "VIOLATED" },
        evals,
        sh.distinct.load(Relaxed),
        wall
    );
    if violations > 0 {
        1
    } else {
        0
    }
}
