//! Drives the workloads of one property: many generated executions of the real code on all
//! cores, each watched by the property's monitor, with a crash and a no-result watch around it.
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

pub struct Workload {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> CaseResult,
}

pub struct Property {
    pub id: &'static str,
    pub workloads: Vec<Workload>,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
}

impl Obs {
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            let e = self.maxes.entry(k).or_insert(f64::MIN);
            *e = e.max(v);
        }
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub obs: &'a mut Obs,
    pub sig: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub notes: String,
    pub live: bool,
    pub thorough: bool,
    /// the number of the case within its workload
    pub index: u64,
}

impl Case<'_> {
    /// number of observed events of a kind
    pub fn count(&mut self, key: &str, n: u64) {
        match self.obs.counts.get_mut(key) {
            Some(v) => *v += n,
            None => {
                self.obs.counts.insert(key.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, key: &str, v: f64) {
        match self.obs.maxes.get_mut(key) {
            Some(m) => *m = m.max(v),
            None => {
                self.obs.maxes.insert(key.to_string(), v);
            }
        }
    }
    /// text written to the replay file (built only when a case is replayed)
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            if self.live {
                // a case that never returns still leaves its input behind
                println!("{s}");
                let _ = std::io::Write::flush(&mut std::io::stdout());
            }
            self.notes.push_str(&s);
            self.notes.push('\n');
        }
    }
    /// mixes into the case's identity
    pub fn sign(&mut self, v: u64) {
        self.sig = mix(self.sig ^ v);
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub out: PathBuf,
    pub replay_dir: PathBuf,
    pub scale: f64,
    pub threads: usize,
    pub only: Option<String>,
    pub case: Option<u64>,
    pub slots: Option<PathBuf>,
    pub max_secs: u64,
}

fn case_seed(seed: u64, prop: &str, wl: &str, idx: u64) -> u64 {
    mix(mix(mix(seed) ^ hash_str(prop)) ^ hash_str(wl)) ^ mix(idx.wrapping_mul(0x9E37_79B9_97F4_A7C1))
}

/// CPU seconds one case may take before the monitor says that the call gives no result.
/// The slowest case on the unchanged tree takes a few seconds.
const CASE_CPU_LIMIT: f64 = 100.0;

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

/// where and why the last panic of this thread happened
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{}", info);
        *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = text.clone();
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

fn exec(w: &Workload, index: u64, seed: u64, verbose: bool, live: bool, thorough: bool, obs: &mut Obs) -> (CaseResult, u64, bool, String) {
    let mut case = Case {
        rng: Rng::new(seed),
        obs,
        sig: hash_str(w.name),
        nontrivial: false,
        verbose,
        notes: String::new(),
        live,
        thorough,
        index,
    };
    let res = catch_unwind(AssertUnwindSafe(|| (w.run)(&mut case)));
    let r = match res {
        Ok(r) => r,
        Err(e) => {
            let mut at = LAST_PANIC.with(|p| p.borrow().clone());
            if at.is_empty() {
                at = ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            }
            Err(format!("panicked instead of giving a result: {} [{}]", panic_text(e), at.replace('\n', " ")))
        }
    };
    (r, case.sig, case.nontrivial, std::mem::take(&mut case.notes))
}

fn thread_cpu(tid: i64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

struct Running {
    tid: i64,
    wl: usize,
    idx: u64,
    cpu0: f64,
    since: Instant,
}

fn write_replay(o: &Opts, prop: &str, wl: &str, idx: u64, msg: &str, notes: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let p = o.replay_dir.join(format!("{prop}-{wl}-{}-{idx}.txt", o.seed));
    let text = format!(
        "property: {prop}\nworkload: {wl}\nseed: {}\ncase: {idx}\nreplay: VERIF_SEED={} /verif/run.sh {prop} --only {wl} --case {idx}\nviolation: {msg}\n\n{notes}",
        o.seed, o.seed
    );
    let _ = std::fs::write(&p, text);
    p
}

pub fn report(o: &Opts, prop: &str, wl: &str, idx: u64, msg: &str, notes: &str) {
    let p = write_replay(o, prop, wl, idx, msg, notes);
    println!("VIOLATION property={prop} replay={}", p.display());
    println!("  workload={wl} case={idx}: {}", msg.chars().take(600).collect::<String>());
}

/// Prints the digest of what call after call returns, a line for every hundred of them (or one
/// for each of those from `case` on), to compare builds of the code under test.
pub fn run_digest(o: &Opts, job: fn(u64) -> u64) -> i32 {
    install_panic_hook();
    let one = |i: u64| catch_unwind(|| job(case_seed(o.seed, "digest", "", i))).unwrap_or(u64::MAX);
    if let Some(k) = o.case {
        for i in k..k + 100 {
            println!("{i} {:016x} made up from {:#x}", one(i), case_seed(o.seed, "digest", "", i));
        }
        return 0;
    }
    let blocks = o.scale as u64;
    let next = AtomicU64::new(0);
    let out: Mutex<BTreeMap<u64, u64>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            s.spawn(|| loop {
                let b = next.fetch_add(1, Ordering::Relaxed);
                if b >= blocks {
                    break;
                }
                let h = (0..100).fold(b, |h, k| mix(h ^ one(100 * b + k)));
                out.lock().unwrap().insert(b, h);
            });
        }
    });
    for (b, h) in out.into_inner().unwrap() {
        println!("{} {h:016x}", 100 * b);
    }
    0
}

/// Runs cases of every workload by turns on this thread alone, for an interpreter: from `case`
/// on every `threads`-th, until the time is up. Prints what was run.
pub fn run_plain(prop: &Property, o: &Opts) -> i32 {
    install_panic_hook();
    crate::props::c19::few();
    let t0 = Instant::now();
    let mut total = Obs::default();
    let (mut n, mut nontrivial, mut idx) = (0, 0, o.case.unwrap_or(0));
    while o.scale > 0.0 && t0.elapsed().as_secs() < o.max_secs {
        for w in &prop.workloads {
            if t0.elapsed().as_secs() >= o.max_secs {
                break;
            }
            // the other properties' workloads make many calls in a case: too long to interpret
            if o.only.as_deref().map_or(w.name == "others", |x| x != w.name) {
                continue;
            }
            eprintln!("at {} {idx}", w.name);
            let (r, _, nt, _) = exec(w, idx, case_seed(o.seed, prop.id, w.name, idx), false, false, o.thorough, &mut total);
            n += 1;
            nontrivial += nt as u64;
            if let Err(m) = r {
                println!("FAIL {} {idx} {m}", w.name);
                return 1;
            }
        }
        idx += o.threads as u64;
    }
    println!("PLAIN {{\"cases\": {n}, \"nontrivial\": {nontrivial}, \"observed\": {}}}", json_counts(&total.counts));
    0
}

/// Runs everything in this process. Returns the exit code.
pub fn run_child(prop: &Property, o: &Opts) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    // keep a runaway allocation inside this process
    unsafe {
        if std::env::var_os("MON_NO_RLIMIT").is_none() {
            let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        } else {
            // sanitizers reserve more than a limit on addresses leaves: watch what is held
            std::thread::spawn(|| loop {
                std::thread::sleep(Duration::from_millis(50));
                let held = std::fs::read_to_string("/proc/self/statm").ok();
                let pages = held.and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()));
                if pages.unwrap_or(0) > (14 << 30) / 4096 {
                    eprintln!("the process holds more than 14 GB");
                    libc::abort();
                }
            });
        }
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    if let Some(idx) = o.case {
        let w = prop
            .workloads
            .iter()
            .find(|w| Some(w.name) == o.only.as_deref())
            .expect("--case needs --only WORKLOAD");
        unsafe { libc::alarm(240) };
        let mut obs = Obs::default();
        let (r, _, _, notes) = exec(w, idx, case_seed(o.seed, prop.id, w.name, idx), true, true, o.thorough, &mut obs);
        println!("counts: {:?}\nmaxes: {:?}", obs.counts, obs.maxes);
        return match r {
            Ok(()) => {
                println!("case {idx}: held");
                0
            }
            Err(m) => {
                report(o, prop.id, w.name, idx, &m, &notes);
                1
            }
        };
    }

    let slots = o.slots.as_ref().map(|p| Arc::new(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap()));
    let mut total = Obs::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut wl_json = String::new();
    let mut samples: Vec<String> = Vec::new();
    let mut violations = 0usize;
    let deadline = t0 + Duration::from_secs(o.max_secs);
    let mut cut = false;

    for (wi, w) in prop.workloads.iter().enumerate() {
        if let Some(only) = &o.only {
            if only != w.name {
                continue;
            }
        }
        let base = if o.thorough { w.thorough } else { w.quick };
        if base == 0 {
            continue;
        }
        let n = ((base as f64 * o.scale).ceil() as u64).max(1);
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let finished = AtomicUsize::new(0);
        let fails: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
        let merged: Mutex<(Obs, HashSet<u64>, u64)> = Mutex::new((Obs::default(), HashSet::new(), 0));
        let threads = o.threads;
        let slow: Option<f64> = std::env::var("MON_SLOW").ok().and_then(|s| s.parse().ok());
        let running: Vec<Mutex<Option<Running>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let wt = Instant::now();
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, done, stop, fails, merged, running, finished) = (&next, &done, &stop, &fails, &merged, &running, &finished);
                let slots = slots.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let tid = unsafe { libc::syscall(libc::SYS_gettid) } as i64;
                        let mut obs = Obs::default();
                        let mut set = HashSet::new();
                        let mut nontrivial = 0u64;
                        while !stop.load(Ordering::Relaxed) {
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= n {
                                break;
                            }
                            if let Some(f) = &slots {
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(wi as u64 + 1).to_le_bytes());
                                b[8..].copy_from_slice(&idx.to_le_bytes());
                                let _ = f.write_at(&b, 16 * t as u64);
                            }
                            *running[t].lock().unwrap() = Some(Running { tid, wl: wi, idx, cpu0: -1.0, since: Instant::now() });
                            let begun = Instant::now();
                            let (r, sig, nt, _) = exec(w, idx, case_seed(o.seed, prop.id, w.name, idx), false, false, o.thorough, &mut obs);
                            let took = begun.elapsed().as_secs_f64();
                            let e = obs.maxes.entry("slowest case, seconds".into()).or_insert(0.0);
                            *e = e.max(took);
                            if slow.map_or(false, |s| took > s) {
                                eprintln!("slow: {} {} took {took:.2} s", w.name, idx);
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                            if nt {
                                nontrivial += 1;
                                set.insert(sig);
                            }
                            if let Err(m) = r {
                                let mut f = fails.lock().unwrap();
                                f.push((idx, m));
                                if f.len() >= 5 && std::env::var_os("MON_KEEP").is_none() {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        *running[t].lock().unwrap() = None;
                        if let Some(f) = &slots {
                            let _ = f.write_at(&[0u8; 16], 16 * t as u64);
                        }
                        let mut m = merged.lock().unwrap();
                        m.0.merge(obs);
                        m.1.extend(set);
                        m.2 += nontrivial;
                        finished.fetch_add(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
            // watch: a case that burns CPU without giving a result, and the overall time cap
            while finished.load(Ordering::Relaxed) < threads {
                std::thread::sleep(Duration::from_millis(if wt.elapsed().as_millis() < 600 { 2 } else { 50 }));
                if Instant::now() > deadline && !stop.load(Ordering::Relaxed) {
                    stop.store(true, Ordering::Relaxed);
                    cut = true;
                }
                for r in running.iter() {
                    let mut g = r.lock().unwrap();
                    if let Some(run) = g.as_mut() {
                        if run.since.elapsed().as_secs() < 20 {
                            continue;
                        }
                        let cpu = thread_cpu(run.tid).unwrap_or(0.0);
                        if run.cpu0 < 0.0 {
                            run.cpu0 = cpu;
                        } else if cpu - run.cpu0 > CASE_CPU_LIMIT {
                            let msg = format!(
                                "no result after more than {CASE_CPU_LIMIT} s of CPU time in one case (the calls of this case give their result in well under a second of it when they work)"
                            );
                            report(o, prop.id, prop.workloads[run.wl].name, run.idx, &msg, "");
                            crash_evidence(o, prop, evals + done.load(Ordering::Relaxed), "a case gave no result", t0.elapsed().as_secs_f64());
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        let (obs, set, _) = merged.into_inner().unwrap();
        let mut f = fails.into_inner().unwrap();
        f.sort();
        for (idx, m) in f.iter().take(12) {
            // replay once with notes on, for the witness
            let mut scratch = Obs::default();
            let (r2, _, _, notes) = exec(w, *idx, case_seed(o.seed, prop.id, w.name, *idx), true, false, o.thorough, &mut scratch);
            let again = if r2.is_err() { "" } else { "\n(the single replay did not fail: the failure depends on the schedule)" };
            report(o, prop.id, w.name, *idx, m, &format!("{notes}{again}"));
            violations += 1;
        }
        let d = done.load(Ordering::Relaxed);
        if std::env::var_os("MON_KEEP").is_some() {
            println!("{} {}: {:#?} {:#?}", w.name, d, obs.counts, obs.maxes);
        }
        evals += d;
        let _ = write!(
            wl_json,
            "{}{}: {{\"cases\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"wall_s\": {:.2}, \"observed\": {}, \"maxima\": {}}}",
            if wl_json.is_empty() { "" } else { ", " },
            js(w.name),
            d,
            set.len(),
            js(w.rule),
            wt.elapsed().as_secs_f64(),
            json_counts(&obs.counts),
            json_max(&obs.maxes)
        );
        if set.is_empty() && violations == 0 && !cut {
            println!("ERROR: workload {} observed nothing non-trivial", w.name);
            return 3;
        }
        // two written-out cases of this run
        for k in 0..2u64 {
            if samples.len() < 12 && d > k {
                let mut scratch = Obs::default();
                let (r, _, _, notes) = exec(w, k, case_seed(o.seed, prop.id, w.name, k), true, false, o.thorough, &mut scratch);
                let mut t: String = notes.chars().take(700).collect();
                if t.is_empty() {
                    t = format!("{:?}", scratch.counts);
                }
                samples.push(format!("{}#{k} -> {}: {}", w.name, if r.is_ok() { "held" } else { "violated" }, t));
            }
        }
        distinct.extend(set);
        total.merge(obs);
        if violations > 0 && !o.thorough {
            break;
        }
    }

    let rule: Vec<String> = prop.workloads.iter().map(|w| format!("{}: {}", w.name, w.rule)).collect();
    let cov = format!(
        "{{\"evaluations\": {evals}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"observed\": {}, \"maxima\": {}, \"cut_by_time_cap\": {cut}, \"workloads\": {{{wl_json}}}}}",
        distinct.len(),
        js(&rule.join(" | ")),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        json_counts(&total.counts),
        json_max(&total.maxes)
    );
    write_evidence(&o.out, prop.id, o, &cov, prop.assumptions, t0.elapsed().as_secs_f64(), violations);
    println!(
        "{}: {} ({} executions, {} distinct non-trivial, {:.1} s{})",
        prop.id,
        if violations == 0 { "held on everything observed" } else { "VIOLATED" },
        evals,
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        if cut { ", cut by the time cap" } else { "" }
    );
    (violations > 0) as i32
}

pub fn write_evidence(path: &Path, id: &str, o: &Opts, cov: &str, assumptions: &[&str], wall: f64, violations: usize) {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let text = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {cov}, \"assumptions\": [{}], \"wall_s\": {wall:.2}, \"violations\": {violations}}}\n",
        js(id),
        js(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
    );
    let _ = std::fs::write(path, text);
}

fn crash_evidence(o: &Opts, prop: &Property, evals: u64, why: &str, wall: f64) {
    let cov = format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [\"see the replay file\"]}}",
        evals.max(1),
        js(why)
    );
    write_evidence(&o.out, prop.id, o, &cov, prop.assumptions, wall, 1);
}

/// Parent: runs the child, and turns a crash of the code under test into a verdict.
pub fn run_parent(prop: &Property, o: &Opts, args: &[String]) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let known = if o.only.is_none() { findings(prop.id, o) } else { 0 };
    let dir = std::env::temp_dir().join(format!("mon-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let slots = dir.join("slots");
    let status = std::process::Command::new(&exe).arg("child").args(args).arg("--slots").arg(&slots).status().unwrap();
    let mut code = status.code();
    if code.is_none() {
        let sig = status.signal().unwrap_or(0);
        let data = std::fs::read(&slots).unwrap_or_default();
        let mut found = false;
        if sig != libc::SIGKILL && sig != libc::SIGTERM && sig != libc::SIGINT && sig != libc::SIGHUP {
            for c in data.chunks_exact(16) {
                let wl = u64::from_le_bytes(c[..8].try_into().unwrap());
                let idx = u64::from_le_bytes(c[8..].try_into().unwrap());
                if wl == 0 {
                    continue;
                }
                let w = &prop.workloads[wl as usize - 1];
                let st = std::process::Command::new(&exe)
                    .arg("child")
                    .args(args)
                    .args(["--only", w.name, "--case", &idx.to_string()])
                    .stdout(std::process::Stdio::null())
                    .status()
                    .unwrap();
                if st.signal().is_some() {
                    report(o, prop.id, w.name, idx, &format!("the process died with signal {} (reproduced alone)", st.signal().unwrap()), "");
                    found = true;
                    break;
                }
            }
            if !found {
                for c in data.chunks_exact(16) {
                    let wl = u64::from_le_bytes(c[..8].try_into().unwrap());
                    let idx = u64::from_le_bytes(c[8..].try_into().unwrap());
                    if wl != 0 {
                        report(o, prop.id, prop.workloads[wl as usize - 1].name, idx, &format!("the process died with signal {sig} while this case or one beside it ran (not reproduced alone)"), "");
                        found = true;
                        break;
                    }
                }
            }
        }
        if found {
            code = Some(1);
            crash_evidence(o, prop, 1, &format!("the run was ended by signal {sig}"), 0.0);
        } else {
            println!("INCONCLUSIVE: the run was ended by signal {sig}");
            code = Some(2);
        }
    }
    let _ = std::fs::remove_file(&slots);
    let _ = std::fs::remove_dir(&dir);
    if code == Some(0) {
        code = Some(known);
    }
    code.unwrap_or(2)
}

/// Judges the scenes which are known to break the property, each in a process of its own, and
/// says so of those listed in the file; any other is reported.
fn findings(id: &str, o: &Opts) -> i32 {
    let listed = std::fs::read_to_string("known-findings.txt").unwrap_or_default();
    let exe = std::env::current_exe().unwrap();
    let mut code = 0;
    for name in crate::props::findings(id) {
        let r = std::process::Command::new(&exe).args(["finding", id, "--only", name]).output().unwrap();
        let text = String::from_utf8_lossy(&r.stdout);
        if !r.status.success() {
            report(o, id, name, 0, &format!("the calls on this scene end with {}", r.status), &text);
            code = 1;
        } else if let Some(what) = text.lines().find_map(|l| l.strip_prefix("fails: ")) {
            if listed.lines().any(|l| l.starts_with(&format!("finding: property={id} name={name}:"))) {
                println!("KNOWN-FINDING: property={id} {name}: {what}");
            } else {
                report(o, id, name, 0, what, "");
                code = 1;
            }
        }
    }
    code
}

pub fn run_finding(prop: &str, o: &Opts) -> i32 {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::alarm(120);
    }
    if let Some(what) = crate::props::finding(prop, o.only.as_deref().unwrap_or("")) {
        println!("fails: {what}");
    }
    0
}

pub fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn json_counts(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}

fn json_max(m: &BTreeMap<String, f64>) -> String {
    format!(
        "{{{}}}",
        m.iter()
            .map(|(k, v)| format!("{}: {}", js(k), if v.is_finite() { format!("{v}") } else { format!("\"{v}\"") }))
            .collect::<Vec<_>>()
            .join(", ")
    )
}
