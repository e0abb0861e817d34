//! C16: the Badger optimiser.
use super::c15::{holder, setup, sim_opts, Setup};
use super::common::*;
use crate::ensure;
use crate::flat::Kind;
use crate::interp::*;
use crate::run::*;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::Write;
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex};
use std::time::Instant;
use tket::circuit::cost::CircuitCost;
use tket::circuit::CircuitHash;
use tket::optimiser::badger::{BadgerLogger, BadgerOptimiser, BadgerOptions, ECCBadgerOptimiser};
use tket::optimiser::{BacktrackingOptimiser, Optimiser, OptimiserOptions, State};
use tket::rewrite::strategy::*;
use tket::rewrite::{ECCRewriter, Rewriter};
use tket::Circuit;

#[derive(Clone, Default)]
struct Buf(Arc<Mutex<Vec<u8>>>);
impl Write for Buf {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn dead_ops(c: &Circuit) -> bool {
    let h = c.hugr();
    let mut live = std::collections::BTreeSet::new();
    let mut todo = vec![c.io_nodes()[1]];
    while let Some(n) = todo.pop() {
        if live.insert(n) {
            todo.extend(h.input_neighbours(n));
        }
    }
    let [i, _] = c.io_nodes();
    h.children(c.parent()).any(|n| n != i && !live.contains(&n))
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Space {
    /// more circuits than were asked for
    Large,
    Unknown,
}
/// Everything that rewriting reaches: number of circuits and the least cost.
fn closure<S: RewriteStrategy>(rw: &ECCRewriter, st: &S, h: &Hugr, most: usize) -> Result<(usize, S::Cost), Space> {
    let mut seen = BTreeMap::new();
    let mut best: Option<S::Cost> = None;
    let mut todo = vec![Circuit::new(h.clone())];
    while let Some(c) = todo.pop() {
        let k = c.circuit_hash(c.parent()).map_err(|_| Space::Unknown)?;
        if seen.insert(k, ()).is_some() {
            continue;
        }
        if c.num_operations() > 60 {
            return Err(Space::Unknown);
        }
        // equal hashes do not see operations that nothing depends on
        if dead_ops(&c) {
            return Err(Space::Unknown);
        }
        if seen.len() > most {
            return Err(Space::Large);
        }
        let cost = st.circuit_cost(&c);
        if best.as_ref().is_none_or(|b| cost < *b) {
            best = Some(cost);
        }
        let rws = rw.get_rewrites(&c);
        todo.extend(st.apply_rewrites(rws, &c).map(|r| r.circ));
    }
    Ok((seen.len(), best.unwrap()))
}
/// The search space as documented: states are circuits, moves are the strategy's rewrites.
struct Ctx<'a, S> {
    rw: &'a ECCRewriter,
    st: &'a S,
}
#[derive(Clone, Debug)]
struct St(Circuit);
impl<S: RewriteStrategy> State<Ctx<'_, S>> for St
where
    S::Cost: serde::Serialize,
{
    type Cost = S::Cost;
    fn hash(&self, _: &Ctx<'_, S>) -> Option<u64> {
        self.0.circuit_hash(self.0.parent()).ok()
    }
    fn cost(&self, c: &Ctx<'_, S>) -> Option<S::Cost> {
        Some(c.st.circuit_cost(&self.0))
    }
    fn next_states(&self, c: &mut Ctx<'_, S>) -> Vec<Self> {
        let rws = c.rw.get_rewrites(&self.0);
        c.st.apply_rewrites(rws, &self.0).map(|r| St(r.circ)).collect()
    }
}
/// The costs in a log, as they are written for values of the type.
fn logged(b: &Buf) -> Vec<String> {
    let t = String::from_utf8_lossy(&b.0.lock().unwrap()).into_owned();
    t.lines().filter(|l| !l.starts_with("circ_cost")).filter_map(|l| l.rsplit_once(',')).map(|x| x.0.to_string()).collect()
}
fn written<C: serde::Serialize>(c: &C) -> String {
    #[derive(serde::Serialize)]
    struct Row<'a, C> {
        a: &'a C,
        b: &'a str,
    }
    let mut w = csv::WriterBuilder::new().has_headers(false).from_writer(vec![]);
    w.serialize(Row { a: c, b: "t" }).unwrap();
    let t = String::from_utf8(w.into_inner().unwrap()).unwrap();
    t.trim().rsplit_once(',').unwrap().0.to_string()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    One,
    Many,
    Split,
}
struct Run<'a> {
    s: &'a Setup,
    mode: Mode,
    before: Summary,
    o: SimOpts,
}
fn name(m: Mode) -> &'static str {
    match m {
        Mode::One => "one thread",
        Mode::Many => "several threads",
        Mode::Split => "split",
    }
}
fn judge<S>(c: &mut Case, r: &Run, st: &S) -> Res
where
    S: RewriteStrategy + Send + Sync + Clone + 'static,
    S::Cost: serde::Serialize + Send + Sync + Debug,
{
    let s = r.s;
    let what = name(r.mode);
    let eccs = s.rules.eccs.clone();
    let rw = no_panic("ECCRewriter::from_eccs", || ECCRewriter::from_eccs(eccs))?;
    let circ = Circuit::new(s.h.clone());
    let cost = st.circuit_cost(&circ);
    let all = closure(&rw, st, &s.h, 60);
    let size = all.as_ref().ok().map(|x| x.0);
    let large = matches!(all, Err(Space::Large));
    c.label(match &all {
        Err(e) => format!("space {e:?}"),
        Ok((n, _)) => format!("space {}", match n { 1 => "1", 2 => "2", 3..=9 => "3-9", _ => "10+" }),
    });
    if r.mode == Mode::Many && !large && !size.is_some_and(|n| n >= 2) && c.src.chance(5, 6) {
        return Err(Stop::Discard("little to search with several threads"));
    }
    let threads = match r.mode {
        Mode::One => 1,
        Mode::Many => c.src.range(2, 4),
        Mode::Split => c.src.range(2, 6),
    };
    let mut opt = BadgerOptions::default();
    opt.n_threads = NonZeroUsize::new(threads).unwrap();
    opt.split_circuit = r.mode == Mode::Split || r.mode == Mode::One && c.src.chance(1, 4);
    opt.queue_size = c.src.choose(&[1usize, 1, 2, 3, 5, 20, 1000]);
    // The search over a large space has to be limited, that of several threads as well.
    let mut timed = false;
    match r.mode {
        Mode::One | Mode::Split => {
            if size.is_none() || c.src.flip() {
                opt.max_circuit_count = Some(c.src.range(0, 25));
            }
        }
        Mode::Many => {
            let counts = large || size.is_some_and(|n| n >= 2);
            if counts && c.src.chance(5, 6) {
                opt.queue_size = 1000;
                let most = size.map(|n| n - 1).unwrap_or(30).min(30);
                opt.max_circuit_count = Some(c.src.below(most));
            } else {
                timed = true;
                if c.src.flip() {
                    opt.timeout = Some(1);
                } else {
                    opt.progress_timeout = Some(1);
                }
            }
        }
    }
    c.label(format!("{what}{}", if timed { ", timed" } else if opt.max_circuit_count.is_some() { ", counted" } else { "" }));
    let again = c.src.chance(1, 3);
    let o2 = opt;
    c.describe(|| format!("{o2:?}\ncost {cost:?} closure {all:?}"));
    let run = |b: &Buf| {
        let badger = BadgerOptimiser::new(rw.clone(), st.clone());
        let b = b.clone();
        let circ = circ.clone();
        no_panic(&format!("{what}: optimise"), move || badger.optimise_with_log(&circ, BadgerLogger::new(b), opt))
    };
    let b = Buf::default();
    let t0 = Instant::now();
    let out = run(&b)?;
    let took = t0.elapsed().as_secs_f64();
    ensure!(!timed || took < 12.0, format!("{what}: time limit"), "{took} s instead of 1");
    let h = out.hugr().clone();
    valid(&h, what)?;
    let after = st.circuit_cost(&out);
    ensure!(after <= cost, format!("{what}: the cost grew"), "{cost:?} to {after:?}");
    let log = logged(&b);
    let (first, last) = (written(&cost), written(&after));
    match r.mode {
        Mode::One => {
            ensure!(log.first() == Some(&first), format!("{what}: log starts with another cost"), "{log:?}, expected {first}");
            ensure!(log.last() == Some(&last), format!("{what}: log ends with another cost"), "{log:?}, expected {last}");
        }
        Mode::Many => {
            if after < cost {
                ensure!(log.last() == Some(&last), format!("{what}: log ends with another cost"), "{log:?}, expected {last}");
            } else {
                ensure!(log.is_empty() || log == [last.clone()], format!("{what}: log of no improvement"), "{log:?}");
            }
        }
        Mode::Split => {
            let want = if after < cost { vec![first, last] } else { vec![first] };
            ensure!(log == want, format!("{what}: log"), "{log:?} instead of {want:?}");
        }
    }
    let full = opt.max_circuit_count.is_none() && size.is_some_and(|n| opt.queue_size >= n);
    if full && r.mode == Mode::One {
        let best = &all.as_ref().unwrap().1;
        ensure!(after == *best, format!("{what}: not the best"), "{after:?}, {best:?} can be reached");
    }
    if full && r.mode == Mode::Many && after != all.as_ref().unwrap().1 {
        // it may not have had the time
        let mut ok = false;
        for _ in 0..3 {
            let mut o = opt;
            o.timeout = None;
            o.progress_timeout = Some(3);
            let badger = BadgerOptimiser::new(rw.clone(), st.clone());
            let x = no_panic(&format!("{what}: optimise"), || badger.optimise(&circ, o))?;
            ok |= st.circuit_cost(&x) == all.as_ref().unwrap().1;
        }
        ensure!(ok, format!("{what}: not the best"), "{after:?}, {:?} can be reached", all.as_ref().unwrap().1);
    }
    if r.mode == Mode::One {
        // the same search, spelled out
        let bt = BacktrackingOptimiser { queue_size: opt.queue_size, timeout: None, progress_timeout: None, max_visited_count: opt.max_circuit_count };
        let x = no_panic("BacktrackingOptimiser", || bt.optimise_with_options(St(circ.clone()), Ctx { rw: &rw, st }, OptimiserOptions::default()))?;
        let Some(x) = x else { return fail("BacktrackingOptimiser: none", "") };
        let want = st.circuit_cost(&x.best_state.0);
        ensure!(want == after, format!("{what}: differs from the plain search"), "{after:?} instead of {want:?}");
        ensure!(x.best_state.0.circuit_hash(x.best_state.0.parent()).ok() == out.circuit_hash(out.parent()).ok(), format!("{what}: differs from the plain search"), "other circuit of cost {want:?}");
    }
    if again && r.mode == Mode::One {
        let b2 = Buf::default();
        let x = run(&b2)?;
        ensure!(x.circuit_hash(x.parent()).ok() == out.circuit_hash(out.parent()).ok(), format!("{what}: not deterministic"), "another circuit");
        ensure!(logged(&b2) == log, format!("{what}: not deterministic"), "log {log:?} and {:?}", logged(&b2));
    }
    c.nontrivial = after < cost;
    let sig = |x: &Circuit| { let s = x.circuit_signature().into_owned(); (s.input().clone(), s.output().clone()) };
    ensure!(sig(&out) == sig(&circ), format!("{what}: signature"), "changed");
    same_meaning(what, &r.before, &h, holder(&h), &s.f.in_tys(), &s.f.out_tys(), &r.o)
}
fn two_q(o: &OpType) -> usize {
    let n = super::c15::op_name(o);
    ["CX", "CZ", "CY", "CRz"].iter().any(|x| n == format!("tket.quantum.{x}[]")) as usize
}
fn all_ops(o: &OpType) -> usize {
    !super::c15::free(o) as usize
}
type CostFn = fn(&OpType) -> usize;
fn any(c: &mut Case, mode: Mode) -> Res {
    let s = setup(c, 5, 9);
    // the threads have to be stopped by the clock when there is little to search
    let o = sim_opts(s.k);
    let before = sim_before(&s.h, holder(&s.h), &s.f.in_tys(), &s.f.out_tys(), &o)?;
    let _ = Kind::All;
    let r = Run { s: &s, mode, before, o };
    let (f, _): (CostFn, u8) = c.src.choose(&[(all_ops as CostFn, 0), (two_q, 1)]);
    let gamma = c.src.choose(&[0.7, 1.0, 1.0001, 1.5]);
    match c.src.below(6) {
        0 => judge(c, &r, &LexicographicCostFunction::default_cx_strategy()),
        1 => judge(c, &r, &LexicographicCostFunction::cx_count().into_threshold_strategy()),
        2 => judge(c, &r, &LexicographicCostFunction::rz_count().into_greedy_strategy()),
        3 => judge(c, &r, &LexicographicCostFunction::rz_count().into_threshold_strategy()),
        4 => judge(c, &r, &GammaStrategyCost::new(gamma, f)),
        _ => {
            let st: ExhaustiveGreedyStrategy<_> = GammaStrategyCost { gamma, op_cost: f }.into();
            judge(c, &r, &st)
        }
    }
}
fn one(c: &mut Case) -> Res {
    any(c, Mode::One)
}
fn many(c: &mut Case) -> Res {
    any(c, Mode::Many)
}
fn split(c: &mut Case) -> Res {
    any(c, Mode::Split)
}
/// The optimisers with a strategy of their own, made from files.
fn made(c: &mut Case) -> Res {
    let mut k = c.src.choose(&[Kind::Rot, Kind::Rot, Kind::Clifford]);
    let d = super::c17::Dir::new();
    let rz = c.src.flip();
    let binary = c.src.flip();
    let what = format!("{} from {}", if rz { "Rz optimiser" } else { "default optimiser" }, if binary { "a binary" } else { "JSON" });
    c.label(what.clone());
    let (rw, opt, classes) = if binary {
        let rs = super::c15::rules(&mut c.src, k, 5, 1);
        let eccs = rs.eccs.clone();
        let rw = no_panic("ECCRewriter::from_eccs", || ECCRewriter::from_eccs(eccs))?;
        let at = match no_panic("save_binary", || rw.save_binary(d.0.join("r")))? {
            Ok(p) => p,
            Err(e) => return fail("save_binary: failed", e.to_string()),
        };
        let o = no_panic(&what, || if rz { ECCBadgerOptimiser::rz_opt_with_rewriter_binary(&at) } else { ECCBadgerOptimiser::default_with_rewriter_binary(&at) })?;
        (rw, o.map_err(|e| e.to_string()), rs.classes)
    } else {
        k = Kind::Rot;
        let (j, all) = super::c17::quartz_file(&mut c.src);
        let at = super::c17::write(&d, j.to_string().as_bytes());
        let rw = match no_panic("try_from_eccs_json_file", || ECCRewriter::try_from_eccs_json_file(&at))? {
            Ok(r) => r,
            Err(e) => return fail("try_from_eccs_json_file: failed", e.to_string()),
        };
        let o = no_panic(&what, || if rz { ECCBadgerOptimiser::rz_opt_with_eccs_json_file(&at) } else { ECCBadgerOptimiser::default_with_eccs_json_file(&at) })?;
        (rw, o.map_err(|e| e.to_string()), all)
    };
    let opt = match opt {
        Ok(o) => o,
        Err(e) => return fail(&format!("{what}: failed"), e),
    };
    let (nq, most) = (c.src.range(1, 4), c.src.range(2, 9));
    let f = crate::ecc::circuit(&mut c.src, k, &classes, nq, most);
    let (h, _) = f.build(0);
    must_validate(&h, "generated circuit");
    c.describe(|| format!("{what}\ncircuit {f:?}\nclasses {classes:?}"));
    c.fingerprint(&format!("{f:?}{classes:?}"));
    let st = if rz { LexicographicCostFunction::rz_count() } else { LexicographicCostFunction::cx_count() }.into_greedy_strategy();
    let circ = Circuit::new(h.clone());
    let Ok((n, best)) = closure(&rw, &st, &h, 60) else { return Err(Stop::Discard("a large space")) };
    let before = st.circuit_cost(&circ);
    let mut o = BadgerOptions::default();
    o.queue_size = 1000;
    // enough for what is expected, whatever is minimised
    o.max_circuit_count = Some(300);
    let out = no_panic(&what, || opt.optimise(&circ, o))?;
    valid(out.hugr(), &what)?;
    let after = st.circuit_cost(&out);
    ensure!(after == best, format!("{what}: not the best"), "{after:?} instead of {best:?}, of {n} circuits, from {before:?}");
    c.nontrivial = after < before;
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "the optimised circuit is cheaper than the one given",
        assumptions: &["equivalence is taken up to a global phase", "queues hold at least one circuit"],
        suites: vec![
            Suite { name: "one", quick: 10000, thorough: 1000000, run: one },
            Suite { name: "made", quick: 3000, thorough: 150000, run: made },
            Suite { name: "split", quick: 8000, thorough: 500000, run: split },
            Suite { name: "many", quick: 1000, thorough: 60000, run: many },
        ],
        hang_violation: Some(30),
    }
}
