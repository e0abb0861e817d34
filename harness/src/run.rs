//! The search loop: cases, failures, shrinking, worker processes, evidence.
use crate::gen::{shrink, Overrun, Src};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub enum Stop {
    /// The property does not hold on this case. `sig` is a stable key of what failed.
    Fail { sig: String, detail: String },
    /// The generated case is outside the property's domain.
    Discard(&'static str),
}
pub type Res<T = ()> = Result<T, Stop>;

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Res<T> {
    Err(Stop::Fail { sig: sig.into(), detail: detail.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => { if !($c) { return $crate::run::fail($sig, format!($($arg)*)); } };
}

pub struct Case {
    pub src: Src,
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub fp: u64,
    pub desc: String,
    pub want_desc: bool,
    pub thorough: bool,
    pub idx: u64,
}
impl Case {
    pub fn new(src: Src) -> Self {
        Case { src, labels: vec![], nontrivial: false, fp: 0, desc: String::new(), want_desc: false, thorough: false, idx: 0 }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        let l = l.into();
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn fingerprint<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        self.fp = self.fp.wrapping_mul(0x100000001b3) ^ hash(t);
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push('\n');
            }
            self.desc.push_str(&f());
        }
    }
}
pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> Res,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
    /// Seconds after which a single case counts as not terminating, when that is a violation.
    pub hang_violation: Option<u64>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
static OTHER_PANIC: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Overrun>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let bt = if std::env::var_os("VERIF_BT").is_some() {
            format!("\n{}", std::backtrace::Backtrace::force_capture())
        } else {
            String::new()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone() + &bt)));
        if let Ok(mut o) = OTHER_PANIC.lock() {
            *o = Some((loc, msg + &bt));
        }
    }));
}

/// Runs `f`; a panic becomes `Err((location, message))`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(p) => {
            if p.is::<Overrun>() {
                std::panic::resume_unwind(p);
            }
            Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
        }
    }
}
pub fn panic_sig(p: &(String, String)) -> String {
    let file = p.0.rsplit_once(':').map(|x| x.0).unwrap_or(&p.0);
    let file = file.rsplit("/repo/").next().unwrap_or(file);
    let file = match file.find("/registry/src/") {
        Some(i) => file[i + 14..].split_once('/').map(|x| x.1).unwrap_or(file),
        None => file,
    };
    let mut msg: String = p.1.lines().next().unwrap_or("").chars().take(60).collect();
    msg = msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    while msg.contains("##") {
        msg = msg.replace("##", "#");
    }
    format!("panic@{file}: {msg}")
}
/// Calls the code under test; a panic is a violation.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match catch(f) {
        Ok(t) => Ok(t),
        Err(p) => fail(format!("{what}: {}", panic_sig(&p)), format!("{what} panicked at {}: {}", p.0, p.1)),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub suite: String,
    pub idx: u64,
    pub sig: String,
    pub detail: String,
    pub draws: Vec<u64>,
    pub desc: String,
    pub shrunk_from: usize,
}
#[derive(Serialize, Deserialize, Default, Debug)]
pub struct Report {
    pub evals: u64,
    pub discards: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub per_suite: BTreeMap<String, u64>,
    pub fps: Vec<u64>,
    pub nontrivial: u64,
    pub samples: Vec<(u64, String)>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<Failure>,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
pub fn known_findings() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("finding: property=")?;
            let (prop, rest) = rest.split_once(" sig=`")?;
            let (sig, text) = rest.split_once('`')?;
            Some(Known { property: prop.into(), sig: sig.into(), text: text.trim().into() })
        })
        .collect()
}
pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

enum Out {
    Ok,
    Discard(String),
    Fail(String, String),
}
fn run_case(suite: &Suite, case: &mut Case) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| (suite.run)(case)));
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(Stop::Discard(w))) => Out::Discard(w.into()),
        Ok(Err(Stop::Fail { sig, detail })) => Out::Fail(sig, detail),
        Err(p) if p.is::<Overrun>() => Out::Discard("overrun".into()),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).or_else(|| OTHER_PANIC.lock().unwrap().take()).unwrap_or_default();
            // A panic whose origin is the harness itself is an error of the check, not of the code under test.
            if (p.0.starts_with("src/") || p.0.contains("/verif/harness/")) && !p.0.contains("/repo/") {
                Out::Fail(format!("HARNESS {}", panic_sig(&p)), format!("panic in the harness at {}: {}", p.0, p.1))
            } else {
                Out::Fail(panic_sig(&p), format!("panic at {}: {}", p.0, p.1))
            }
        }
    }
}

pub fn case_seed(seed: u64, id: &str, suite: &str, idx: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes().chain([0]).chain(suite.bytes()).chain([0]).chain(seed.to_le_bytes()).chain(idx.to_le_bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub shards: u64,
    pub only_suite: Option<String>,
    pub scale: f64,
}
impl Opts {
    fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    fn cases(&self, s: &Suite) -> u64 {
        if self.only_suite.as_ref().is_some_and(|o| o != s.name) {
            return 0;
        }
        let n = if self.thorough() { s.thorough } else { s.quick };
        ((n as f64 * self.scale).ceil()) as u64
    }
}

pub fn worker(prop: &Prop, o: &Opts, shard: u64, status: &std::path::Path) -> Report {
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.property == prop.id).collect();
    let st = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(status).unwrap();
    let mut rep = Report::default();
    'outer: for (si, suite) in prop.suites.iter().enumerate() {
        let n = o.cases(suite);
        for idx in (shard..n).step_by(o.shards as usize) {
            let mut buf = [0u8; 24];
            buf[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
            buf[8..16].copy_from_slice(&idx.to_le_bytes());
            buf[16..24].copy_from_slice(&rep.evals.to_le_bytes());
            let _ = st.write_at(&buf, 0);
            let mut case = Case::new(Src::random(case_seed(o.seed, prop.id, suite.name, idx)));
            case.thorough = o.thorough();
            case.idx = idx;
            let want = rep.samples.len() < 3;
            case.want_desc = want;
            let t = std::time::Instant::now();
            let out = run_case(suite, &mut case);
            if std::env::var_os("VERIF_SLOW").is_some() && t.elapsed().as_millis() > 500 {
                eprintln!("slow {} {} {:?}", suite.name, idx, t.elapsed());
            }
            match out {
                Out::Ok => {
                    rep.evals += 1;
                    *rep.per_suite.entry(suite.name.into()).or_default() += 1;
                    for l in &case.labels {
                        *rep.labels.entry(l.clone()).or_default() += 1;
                    }
                    if case.nontrivial {
                        rep.nontrivial += 1;
                        let fp = if case.fp == 0 { hash(&case.src.log) } else { case.fp };
                        rep.fps.push(fp ^ hash(suite.name));
                        if want && !case.desc.is_empty() {
                            let d: String = case.desc.chars().take(1500).collect();
                            rep.samples.push((idx, format!("[{}] {}", suite.name, d)));
                        }
                    }
                }
                Out::Discard(w) => {
                    *rep.discards.entry(w).or_default() += 1;
                }
                Out::Fail(sig, detail) => {
                    rep.evals += 1;
                    if let Some(k) = known.iter().find(|k| k.sig == sig) {
                        *rep.known.entry(k.sig.clone()).or_default() += 1;
                        continue;
                    }
                    let log = case.src.log.clone();
                    let from = log.len();
                    let deadline = Instant::now() + Duration::from_secs(45);
                    let thorough = o.thorough();
                    let mut last = (sig, detail);
                    let best = shrink(log, 3000, deadline, &mut |c| {
                        let mut case = Case::new(Src::replay(c.to_vec()));
                        case.thorough = thorough;
                        match run_case(suite, &mut case) {
                            Out::Fail(s, _) if !known.iter().any(|k| k.sig == s) && s.starts_with("HARNESS") == last.0.starts_with("HARNESS") => Some(case.src.log),
                            _ => None,
                        }
                    });
                    let mut case = Case::new(Src::replay(best.clone()));
                    case.thorough = thorough;
                    case.want_desc = true;
                    if let Out::Fail(s, d) = run_case(suite, &mut case) {
                        last = (s, d);
                    }
                    rep.failure = Some(Failure { suite: suite.name.into(), idx, sig: last.0, detail: last.1, draws: best, desc: case.desc, shrunk_from: from });
                    break 'outer;
                }
            }
        }
    }
    rep
}

pub fn replay(prop: &Prop, path: &str) -> i32 {
    let f: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let seed = f["seed"].as_u64().unwrap_or(1);
    let f: Failure = serde_json::from_value(f["failure"].clone()).unwrap();
    let suite = prop.suites.iter().find(|s| s.name == f.suite).expect("suite");
    let mut case = Case::new(if f.draws.is_empty() { Src::random(case_seed(seed, prop.id, suite.name, f.idx)) } else { Src::replay(f.draws) });
    case.want_desc = true;
    let out = run_case(suite, &mut case);
    println!("case:\n{}", case.desc);
    match out {
        Out::Ok => {
            println!("holds");
            0
        }
        Out::Discard(w) => {
            println!("discarded: {w}");
            0
        }
        Out::Fail(s, d) => {
            println!("fails: {s}\n{d}");
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
    }
}

/// Runs one generated case by suite and index and prints everything about it.
pub fn one(prop: &Prop, o: &Opts, suite: &str, idx: u64) -> i32 {
    let suite = prop.suites.iter().find(|s| s.name == suite).expect("suite");
    let mut case = Case::new(Src::random(case_seed(o.seed, prop.id, suite.name, idx)));
    case.thorough = o.thorough();
    case.want_desc = true;
    case.idx = idx;
    let out = run_case(suite, &mut case);
    println!("case:\n{}\nlabels: {:?}\nnontrivial: {}", case.desc, case.labels, case.nontrivial);
    match out {
        Out::Ok => println!("holds"),
        Out::Discard(w) => println!("discarded: {w}"),
        Out::Fail(s, d) => println!("fails: {s}\n{d}"),
    }
    0
}

pub fn check(prop: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for s in 0..o.shards {
        let status = dir.join(format!("status{s}"));
        std::fs::write(&status, [0u8; 24]).unwrap();
        let out = std::fs::File::create(dir.join(format!("out{s}"))).unwrap();
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("worker").arg(prop.id).arg("--tier").arg(&o.tier).arg("--seed").arg(o.seed.to_string());
        cmd.arg("--shards").arg(o.shards.to_string()).arg("--shard").arg(s.to_string()).arg("--status").arg(&status);
        cmd.arg("--scale").arg(o.scale.to_string());
        if let Some(x) = &o.only_suite {
            cmd.arg("--suite").arg(x);
        }
        cmd.stdout(std::process::Stdio::null());
        cmd.arg("--report").arg(dir.join(format!("rep{s}")));
        cmd.stderr(out);
        kids.push((s, cmd.spawn().unwrap(), None::<std::process::ExitStatus>, (0u64, 0u64, Instant::now()), false));
    }
    let hang = Duration::from_secs(prop.hang_violation.unwrap_or(600));
    loop {
        let mut live = false;
        for (s, kid, ended, seen, hung) in kids.iter_mut() {
            if ended.is_some() {
                continue;
            }
            match kid.try_wait().unwrap() {
                Some(st) => *ended = Some(st),
                None => {
                    live = true;
                    if let Ok(b) = std::fs::read(dir.join(format!("status{s}"))) {
                        if b.len() >= 16 {
                            let a = u64::from_le_bytes(b[..8].try_into().unwrap());
                            let i = u64::from_le_bytes(b[8..16].try_into().unwrap());
                            if (a, i) != (seen.0, seen.1) {
                                *seen = (a, i, Instant::now());
                            } else if seen.2.elapsed() > hang {
                                let _ = kid.kill();
                                *hung = true;
                            }
                        }
                    }
                }
            }
        }
        if !live {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut total = Report::default();
    let mut failures: Vec<Failure> = vec![];
    let mut errors: Vec<String> = vec![];
    for (s, _, ended, seen, hung) in &kids {
        match std::fs::read_to_string(dir.join(format!("rep{s}"))).ok().and_then(|t| serde_json::from_str::<Report>(&t).ok()) {
            Some(r) => {
                total.evals += r.evals;
                total.nontrivial += r.nontrivial;
                for (k, v) in r.discards {
                    *total.discards.entry(k).or_default() += v;
                }
                for (k, v) in r.labels {
                    *total.labels.entry(k).or_default() += v;
                }
                for (k, v) in r.per_suite {
                    *total.per_suite.entry(k).or_default() += v;
                }
                for (k, v) in r.known {
                    *total.known.entry(k).or_default() += v;
                }
                total.fps.extend(r.fps);
                total.samples.extend(r.samples);
                if let Some(f) = r.failure {
                    if f.sig.starts_with("HARNESS") {
                        errors.push(format!("{} {}: {} {}\n{}", f.suite, f.idx, f.sig, f.detail, f.desc));
                    } else {
                        failures.push(f);
                    }
                }
            }
            None => {
                let suite = prop.suites.get((seen.0 as usize).wrapping_sub(1)).map(|s| s.name).unwrap_or("?");
                let tail: String = std::fs::read_to_string(dir.join(format!("out{s}"))).unwrap_or_default().lines().rev().take(5).collect::<Vec<_>>().join(" | ");
                let what = format!("suite {suite} case {}: {}", seen.1, tail);
                use std::os::unix::process::ExitStatusExt;
                let sig = ended.and_then(|e| e.signal());
                if *hung && prop.hang_violation.is_none() {
                    errors.push(format!("a case did not end within {} s: {what}", hang.as_secs()));
                } else if seen.0 == 0 || (sig.is_none() && !*hung) || (sig == Some(libc::SIGKILL) && !*hung) {
                    errors.push(format!("worker {s} ended with {ended:?}: {what}"));
                } else {
                    let sg = if *hung { "does not terminate".to_string() } else { format!("process died of signal {}", sig.unwrap_or(0)) };
                    // The draws of the crashed case are regenerated from its seed on replay.
                    {
                        failures.push(Failure { suite: suite.into(), idx: seen.1, sig: sg, detail: what, draws: vec![], desc: format!("case {} of seed {}", seen.1, o.seed), shrunk_from: 0 });
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.property == prop.id).collect();
    failures.retain(|f| !known.iter().any(|k| k.sig == f.sig));
    let distinct: HashSet<u64> = total.fps.iter().copied().collect();
    total.samples.sort();
    total.samples.dedup();
    let samples: Vec<String> = total.samples.iter().map(|s| s.1.clone()).take(6).collect();
    let ev = serde_json::json!({
        "property": prop.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "cases_per_suite": total.per_suite,
            "labels": total.labels,
            "discarded": total.discards,
            "known_finding_hits": total.known,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let evp = verif_dir().join("evidence").join(format!("{}.json", prop.id));
    let _ = std::fs::create_dir_all(evp.parent().unwrap());
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} cases, {} non-trivial ({} distinct), {} discarded, {:.1} s", prop.id, o.tier, total.evals, total.nontrivial, distinct.len(), total.discards.values().sum::<u64>(), t0.elapsed().as_secs_f64());
    if std::env::var_os("VERIF_LABELS").is_some() {
        println!("labels {:#?}\ndiscards {:#?}\nper suite {:?}", total.labels, total.discards, total.per_suite);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {} [hit {} times in this run]", k.property, k.text, total.known.get(&k.sig).copied().unwrap_or(0));
    }
    if !failures.is_empty() {
        failures.sort_by_key(|f| (f.draws.len(), f.idx));
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let mut seen = HashSet::new();
        for f in &failures {
            if !seen.insert(f.sig.clone()) {
                continue;
            }
            let p = rdir.join(format!("{}-{}-{:08x}.json", prop.id, f.suite, hash(&f.sig) as u32));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&serde_json::json!({"property": prop.id, "seed": o.seed, "failure": f})).unwrap());
            println!("--- {} case {} ({} draws, shrunk from {})\n{}\n{}\n{}", f.suite, f.idx, f.draws.len(), f.shrunk_from, f.sig, f.detail, f.desc);
            println!("VIOLATION property={} replay={}", prop.id, p.display());
        }
        let _ = std::io::stdout().flush();
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {e}");
        }
        return 2;
    }
    let evaluated = total.evals + total.discards.values().sum::<u64>();
    let asked: u64 = prop.suites.iter().map(|s| o.cases(s)).sum();
    if evaluated != asked || total.evals == 0 {
        println!("ERROR ran {evaluated} of {asked} cases");
        return 2;
    }
    0
}
