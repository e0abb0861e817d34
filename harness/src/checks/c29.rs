//! C29: compiled programs behave like the programs they are compiled from.
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::qstate::C;
use crate::run::*;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr::extension::ExtensionRegistry;
use hugr::{hugr::hugrmut::HugrMut, Hugr, HugrView};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, Command, Stdio};
use K::*;

struct Proc {
    child: Child,
    out: BufReader<std::process::ChildStdout>,
}
impl Proc {
    fn new(mut c: Command) -> Proc {
        use std::os::unix::process::CommandExt;
        // the child ends with the worker
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start a helper process");
        let out = BufReader::new(child.stdout.take().unwrap());
        Proc { child, out }
    }
    fn ask(&mut self, head: String, data: &[u8]) -> std::io::Result<()> {
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(head.as_bytes())?;
        i.write_all(data)?;
        i.flush()
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static COMPILER: RefCell<Option<Proc>> = const { RefCell::new(None) };
    static RUNNER: RefCell<Option<Proc>> = const { RefCell::new(None) };
}
fn target() -> String {
    std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into())
}
/// Runs the repository's compiler. `Err`: it refuses; failing to answer at all is a violation.
pub fn compiler(what: &str, opt: u32, bytes: &[u8]) -> Res<Result<Vec<u8>, String>> {
    COMPILER.with(|c| {
        let mut c = c.borrow_mut();
        let p = c.get_or_insert_with(|| {
            let mut k = Command::new("/usr/bin/python3.12");
            k.arg("/verif/qis/compile.py").arg(format!("{}/debug/libselene_hugr_qis_compiler.so", target())).env("RUST_BACKTRACE", "0");
            Proc::new(k)
        });
        let mut go = || -> std::io::Result<Result<Vec<u8>, String>> {
            p.ask(format!("{what} {opt} {}\n", bytes.len()), bytes)?;
            let mut l = String::new();
            p.out.read_line(&mut l)?;
            let mut it = l.split_whitespace();
            let (Some(s), Some(n)) = (it.next(), it.next().and_then(|x| x.parse::<usize>().ok())) else { return Err(std::io::ErrorKind::UnexpectedEof.into()) };
            let mut b = vec![0; n];
            p.out.read_exact(&mut b)?;
            Ok(if s == "ok" { Ok(b) } else { Err(String::from_utf8_lossy(&b).into_owned()) })
        };
        match go() {
            Ok(r) => Ok(r),
            Err(_) => {
                let how = c.as_mut().unwrap().child.wait();
                *c = None;
                fail("compile: crash", format!("the compiler's process ends: {how:?}"))
            }
        }
    })
}
pub fn execute(bc: &[u8], max_paths: usize, fail_at: usize) -> Res<String> {
    RUNNER.with(|c| {
        let mut c = c.borrow_mut();
        let p = c.get_or_insert_with(|| Proc::new(Command::new(format!("{}/qrun", target()))));
        let mut text = String::new();
        let mut go = || -> std::io::Result<()> {
            p.ask(format!("run {} {max_paths} {fail_at}\n", bc.len()), bc)?;
            loop {
                let k = text.len();
                if p.out.read_line(&mut text)? == 0 {
                    return Err(std::io::ErrorKind::UnexpectedEof.into());
                }
                if &text[k..] == "END\n" {
                    return Ok(());
                }
            }
        };
        let r = go();
        if r.is_err() || text.contains("TIMEOUT\n") {
            let how = c.as_mut().unwrap().child.wait();
            *c = None;
            if r.is_err() {
                return fail("compiled program: crash", format!("the compiled program crashes: {how:?}\nuntil then:\n{text}"));
            }
        }
        Ok(text)
    })
}
pub fn unhex(s: &str) -> Option<String> {
    let b: Option<Vec<u8>> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
    String::from_utf8(b?).ok()
}
/// What the runtime was told, in the interpreter's words.
pub fn event(l: &str) -> Result<String, String> {
    let f: Vec<&str> = l.split(' ').collect();
    let t = unhex(f[3]).ok_or("tag is not text")?;
    if t.len() != f[2].parse::<usize>().unwrap_or(0) {
        return Err("tag length".into());
    }
    let (prefix, name, many) = match f[1] {
        "bool" => ("USER:BOOL:", "result_bool", false),
        "int" => ("USER:INT:", "result_int", false),
        "uint" => ("USER:INT:", "result_uint", false),
        "float" => ("USER:FLOAT:", "result_f64", false),
        "boolarr" => ("USER:BOOLARR:", "result_array_bool", true),
        "intarr" => ("USER:INTARR:", "result_array_int", true),
        "uintarr" => ("USER:INTARR:", "result_array_uint", true),
        "floatarr" => ("USER:FLOATARR:", "result_array_f64", true),
        "state" => ("USER:STATE:", "state", false),
        k => return Err(format!("unknown event {k}")),
    };
    let Some(tag) = t.strip_prefix(prefix) else { return Err(format!("tag `{t}` without the prefix {prefix}")) };
    let v: Vec<String> = f[4..].iter().filter(|x| !x.is_empty()).map(|x| if f[1].starts_with("float") { fnum(f64::from_bits(x.parse().unwrap())) } else { x.to_string() }).collect();
    let v = match f[1] {
        "boolarr" => format!("[{}]", v.concat()),
        _ if many => format!("[{}]", v.join(",")),
        _ => v.concat(),
    };
    Ok(format!("{name}:{tag}={v}"))
}
/// What compiling and running `bytes` shows to its user, as the interpreter would report it.
fn observe(text: &str, ordered: bool, panics: bool) -> Res<Summary> {
    let mut sum = Summary::default();
    let mut paths: Vec<(f64, u32, i64, String, Vec<String>)> = vec![];
    for l in text.lines() {
        let f: Vec<&str> = l.splitn(8, ' ').collect();
        match f[0] {
            "LOAD" => return fail("compiled program: cannot load", l.to_string()),
            "TIMEOUT" => return fail("compiled program: does not end", l.to_string()),
            "END" => break,
            "P" => paths.push((f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap(), f.get(7).unwrap_or(&"").to_string(), vec![])),
            "E" => match event(l) {
                Ok(e) => paths.last_mut().unwrap().4.push(e),
                Err(e) => return fail("compiled program: malformed report", format!("{e}: {l}")),
            },
            _ => return fail("compiled program: protocol", l.to_string()),
        }
    }
    for (w, how, code, why, mut ev) in paths {
        sum.paths += 1;
        match how {
            1 => {
                if !ordered {
                    ev.sort();
                }
                sum.obs.entry(format!(" | {}", ev.join(" "))).or_default().push(vec![C(w.sqrt(), 0.0)]);
            }
            2 => {
                let Some(m) = why.strip_prefix("EXIT:INT:") else { return fail("compiled program: panic message", why) };
                let key = match (panics, code > 1000) {
                    (false, _) => "PANIC".into(),
                    (_, true) => format!("PANIC panic {} {m} | {}", code - 1000, ev.join(" ")),
                    (_, false) => format!("PANIC exit {code} {m} | {}", ev.join(" ")),
                };
                let e = sum.obs.entry(key).or_default();
                if let Some(x) = e.first_mut() {
                    x[0] = C((x[0].n2() + w).sqrt(), 0.0);
                } else {
                    e.push(vec![C(w.sqrt(), 0.0)]);
                }
            }
            3 => return fail("compiled program: wrong use of the runtime", why),
            _ => return Err(Stop::Discard("result not simulable")),
        }
    }
    Ok(sum)
}
/// The extensions that the compiler does not know by itself travel with the program.
fn extras() -> ExtensionRegistry {
    let names = ["tket.qsystem.random", "tket.qsystem.utils", "tket.guppy", "tket.modifier", "tket.global_phase"];
    ExtensionRegistry::new(REG.iter().filter(|e| names.contains(&&*e.name().to_string())).cloned())
}
thread_local! {
    static EXTRAS: ExtensionRegistry = extras();
}
pub fn envelope(h: &Hugr, f: usize) -> Vec<u8> {
    let cfg = match f {
        0 => EnvelopeConfig::binary(),
        1 => EnvelopeConfig::text(),
        2 => EnvelopeConfig::new(EnvelopeFormat::PackageJson),
        _ => EnvelopeConfig::new(EnvelopeFormat::ModelWithExtensions),
    };
    let mut b = vec![];
    EXTRAS.with(|e| h.store_with_exts(&mut b, cfg, e)).expect("cannot store the program");
    b
}
/// of the generated panics
const MESSAGES: [&str; 2] = [" boom |", " bye |"];
fn go(c: &mut Case, mut k: Cfg, ordered: bool) -> Res {
    k.chain_events = ordered;
    let p = closed_program(&mut c.src, &k);
    must_validate(&p.h, "generated program");
    let opt = c.src.below(4) as u32;
    let form = c.src.below(4);
    c.describe(|| format!("opt level {opt}, envelope {form}\n{}", show(&p.h)));
    label_feats(c, &p);
    let mut o = SimOpts { ordered_events: ordered, panic_events: ordered, ..Default::default() };
    let mut before = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    if before.obs.keys().any(|k| k.starts_with("PANIC") && !MESSAGES.iter().any(|m| k.contains(m))) {
        // not every panic has its place in the order
        o.panic_events = false;
        before = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    }
    let mut h = p.h.clone();
    if matches!(h.get_optype(p.main), hugr::ops::OpType::FuncDefn(f) if f.func_name() == "main") && c.src.flip() {
        // the older way to mark the entry point
        c.label("module entry point");
        h.set_entrypoint(h.module_root());
    }
    let bytes = envelope(&h, form);
    let bc = match compiler("bc", opt, &bytes)? {
        Ok(b) => b,
        Err(e) => {
            let e = e.split("\n\nStack backtrace").next().unwrap().to_string();
            if e.contains("unimplemented op") {
                // hugr's own code generators do not cover hugr's standard library
                return Err(Stop::Discard("operation unknown to hugr-llvm"));
            }
            // hugr-core's loader skips nodes at the end of some hugrs
            if e.contains("unresolved opaque operation") && Hugr::load(&bytes[..], Some(&REG)).map(|h| h.validate().is_err()).unwrap_or(true) {
                return Err(Stop::Discard("hugr itself cannot load it"));
            }
            if super::c25::plain_get(&p.h) {
                return Err(Stop::Discard("plain array get"));
            }
            return fail(format!("compile: refused: {}", e.chars().take(70).collect::<String>().replace('`', "'")), format!("{e}\n{}", show(&p.h)));
        }
    };
    let text = execute(&bc, o.max_paths * 4, 0)?;
    if text.contains("TIMEOUT\n") && before.obs.keys().any(|k| k.starts_with("PANIC")) {
        // a panic and an endless loop without an order between them
        return Err(Stop::Discard("result not simulable"));
    }
    let after = observe(&text, ordered, o.panic_events)?;
    if let Err(e) = compare(&before, &after) {
        let ir = compiler("ir", 0, &bytes)?.unwrap_or_default();
        return fail("compiled program: different behaviour", format!("{e}\nruntime log:\n{text}\nunoptimised code:\n{}", String::from_utf8_lossy(&ir)));
    }
    c.nontrivial = before.obs.len() > 1;
    c.fingerprint(&show(&p.h));
    Ok(())
}
fn base() -> Cfg {
    let mut k = Cfg::new(&[(G1, 4), (G2, 3), (GRot, 3), (CRz, 1), (G3, 1)]).with(&[
        (Alloc, 2), (K::Free, 1), (Reset, 1), (Meas, 2), (MeasFree, 2), (TryAlloc, 1), (QRz, 2), (QPx, 2), (QZz, 2), (QMeas, 1), (QMeasReset, 2), (QReset, 1), (QFree, 1), (Lazy, 2), (Fut, 3), (TB, 3), (Log, 3), (Rot, 3), (Flt, 3), (Int, 3), (Conv, 2),
        (Tup, 2), (Untup, 2), (TagOp, 2), (UnwrapSum, 2), (Noop, 1), (Dfg, 3), (Cond, 4), (Loop, 2), (CfgN, 2), (Call, 3), (CallInd, 1), (ResOp, 3), (Const, 2), (Order, 2), (K::Barrier, 1), (RtBarrier, 1), (Shot, 1), (RngOp, 1), (Panic, 1), (StateRes, 1),
        (DropOp, 1),
    ]);
    k.plain_ints = true;
    k.ext_edges = false;
    k.ops = (1, 14);
    k.funcs = 2;
    k.const_away = true;
    k.computed_angles = true;
    k.max_qubits = 4;
    k.max_measures = 4;
    k.out_copy = 4;
    k.ins = vec![(t_q(), 6), (t_b(), 1), (t_tb(), 1), (t_f(), 1), (t_r(), 1), (t_u(), 1), (t_i(6), 1), (t_tup(vec![t_b(), t_q()]), 1), (t_opt(vec![t_f()]), 1)];
    k
}
fn programs(c: &mut Case) -> Res {
    go(c, base(), false)
}
fn arrays(c: &mut Case) -> Res {
    let mut k = base().with(&[(Arr, 10), (ArrOp, 16), (Bor, 8), (SArr, 2), (ResArr, 4), (DropOp, 2)]);
    k.ins = vec![(t_q(), 4), (t_b(), 1), (t_u(), 1), (t_i(6), 1), (t_arr(AK::Array, 2, t_q()), 2), (t_arr(AK::Borrow, 2, t_q()), 2), (t_arr(AK::Array, 2, t_b()), 1), (t_arr(AK::Borrow, 2, t_f()), 1), (t_arr(AK::Borrow, 2, t_arr(AK::Borrow, 1, t_q())), 1)];
    go(c, k, false)
}
/// Results reach the user in the order in which the program reports them.
fn events(c: &mut Case) -> Res {
    go(c, base().with(&[(ResOp, 16), (StateRes, 2), (Panic, 3), (Cond, 4), (CfgN, 3), (Loop, 2)]), true)
}
pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "the compiled program can report more than one thing",
        assumptions: &[],
        suites: vec![Suite { name: "programs", quick: 3000, thorough: 200000, run: programs }, Suite { name: "arrays", quick: 3000, thorough: 200000, run: arrays }, Suite { name: "events", quick: 2000, thorough: 100000, run: events }, Suite { name: "gpu", quick: 1500, thorough: 100000, run: super::c29gpu::gpu }],
        hang_violation: None,
    }
}
