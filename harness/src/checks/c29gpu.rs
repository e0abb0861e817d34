//! C29, continued: what compiled programs ask of the GPU library.
use super::c29::{compiler, envelope, event, execute, unhex};
use super::common::*;
use crate::ensure;
use crate::gen::Src;
use crate::hb::*;
use crate::run::*;
use hugr::builder::{Container, Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder, SubContainer};
use hugr::extension::prelude::{option_type, UnwrapBuilder};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::handle::NodeHandle;
use hugr::types::Signature;
use hugr::{Hugr, Wire};
use std::collections::{BTreeMap, BTreeSet};
use tket_qsystem::extension::classical_compute::gpu::{ConstGpuModule, GpuOpBuilder, GpuType};
use tket_qsystem::extension::result::{ResultOp, ResultOpBuilder};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum T {
    Int,
    Usize,
    Flt,
    Bool,
}
use T::*;
impl T {
    fn ty(self) -> hugr::types::Type {
        match self {
            Int => t_i(6),
            Usize => t_u(),
            Flt => t_f(),
            Bool => t_b(),
        }
    }
    fn letter(self) -> char {
        match self {
            Int | Usize => 'i',
            Flt => 'f',
            Bool => 'b',
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum F {
    Name(&'static str),
    Id(u64),
}
#[derive(Clone, Debug)]
enum Step {
    /// which context, which function, arguments by type and place, what comes back, whether to look the function up again
    Call(usize, F, Vec<(T, usize)>, Option<T>, bool),
    /// a function of the program: its place, which context, arguments
    Helper(usize, usize, Vec<(T, usize)>),
}
/// The values at hand, by type; the values themselves are bit patterns.
type Env<V> = BTreeMap<T, Vec<V>>;
const HELPER_INS: [T; 3] = [Int, Flt, Bool];
const NAMES: [&str; 14] = ["f", "F", "go", "f_1", "f1", "f.1", "a.b", "ab", "x y", "größe", "is_set", "\"q\"", "id_f", "cache_f"];

fn steps(src: &mut Src, most: usize, ctxs: usize, helpers: usize) -> Vec<Step> {
    let mut v = vec![];
    for _ in 0..src.range(1, most) {
        let c = src.below(ctxs);
        if helpers > 0 && src.chance(1, 3) {
            let h = src.below(helpers);
            let a = HELPER_INS.iter().map(|t| (*t, src.below(100))).collect();
            v.push(Step::Helper(h, c, a));
            continue;
        }
        let f = if src.flip() { F::Name(src.choose(&NAMES)) } else { F::Id(src.choose(&[0u64, 1, 42, u32::MAX as u64 + 7, u64::MAX >> 1])) };
        let mut a = vec![];
        for _ in 0..src.below(6) {
            let t = src.choose(&[Int, Usize, Flt, Bool, Bool]);
            a.push((t, src.below(100)));
        }
        let o = src.choose(&[None, Some(Int), Some(Flt), Some(Usize)]);
        let again = src.flip();
        v.push(Step::Call(c, f, a, o, again));
    }
    v
}
fn pick<V: Clone>(e: &Env<V>, a: &[(T, usize)]) -> Vec<V> {
    a.iter().map(|(t, i)| e[t][i % e[t].len()].clone()).collect()
}
struct Emit<'a> {
    module: (String, Option<String>),
    helpers: &'a [hugr::builder::BuildHandle<hugr::ops::handle::FuncID<true>>],
}
impl Emit<'_> {
    fn go(&self, b: &mut impl Dataflow, s: &[Step], env: &mut Env<Wire>, ctx: &mut [Wire], tag: &mut usize, report: bool) {
        let m = b.add_load_value(ConstGpuModule { module_filename: self.module.0.clone(), config_filename: self.module.1.clone() });
        let mut known: BTreeMap<(F, String), Wire> = BTreeMap::new();
        for s in s {
            let (t, w) = match s {
                Step::Call(c, f, a, o, again) => {
                    let ins: Vec<_> = a.iter().map(|x| x.0.ty()).collect();
                    let outs: Vec<_> = o.iter().map(|x| x.ty()).collect();
                    let key = (f.clone(), format!("{ins:?}{outs:?}"));
                    let fw = match known.get(&key) {
                        Some(w) if !again => *w,
                        _ => match f {
                            F::Name(n) => b.add_lookup_by_name(*n, row(&ins), row(&outs), m).unwrap(),
                            F::Id(n) => b.add_lookup_by_id(*n, row(&ins), row(&outs), m).unwrap(),
                        },
                    };
                    known.insert(key, fw);
                    let r = b.add_call(ctx[*c], fw, pick(env, a)).unwrap();
                    let (c2, v) = b.add_read_result(r).unwrap();
                    ctx[*c] = c2;
                    match o {
                        Some(t) => (*t, v[0]),
                        None => continue,
                    }
                }
                Step::Helper(h, c, a) => {
                    let mut ins = vec![ctx[*c]];
                    ins.extend(pick(env, a));
                    let o: Vec<Wire> = b.call(self.helpers[*h].handle(), &[], ins).unwrap().outputs().collect();
                    ctx[*c] = o[0];
                    (Int, o[1])
                }
            };
            env.get_mut(&t).unwrap().push(w);
            if report {
                let (w, op) = match t {
                    Usize => (b.add_dataflow_op(xop("arithmetic.conversions", "ifromusize", &[]), [w]).unwrap().out_wire(0), ResultOp::new_int(format!("r{tag}"), 6)),
                    Flt => (w, ResultOp::new_f64(format!("r{tag}"))),
                    _ => (w, ResultOp::new_int(format!("r{tag}"), 6)),
                };
                b.add_result(w, op).unwrap();
                *tag += 1;
            }
        }
    }
}
fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
const BASIS: u64 = 0xcbf29ce484222325;
fn hex(b: &[u8]) -> String {
    format!("x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
}
#[derive(Default)]
struct Told {
    /// of each context, in order
    ctx: Vec<Vec<String>>,
    names: BTreeSet<String>,
    reports: Vec<String>,
}
/// What the library has to see.
fn expect(s: &[Step], helpers: &[Vec<Step>], env: &mut Env<u64>, ids: &[usize], t: &mut Told, map: &[usize], report: bool) {
    for s in s {
        let (ty, v) = match s {
            Step::Call(c, f, a, o, _) => {
                let mut blob = vec![];
                for ((ty, _), v) in a.iter().zip(pick(env, a)) {
                    if *ty == Bool {
                        blob.push(v as u8);
                    } else {
                        blob.extend(v.to_le_bytes());
                    }
                }
                let id = match f {
                    F::Name(n) => {
                        t.names.insert(n.to_string());
                        fnv(BASIS, n.as_bytes())
                    }
                    F::Id(i) => *i,
                };
                let sig: String = a.iter().map(|x| x.0.letter()).chain([':', o.map_or('v', T::letter)]).collect();
                let c = map[*c];
                let ctx = 7000 + ids[c];
                t.ctx[c].push(format!("call {ctx} {id} {} {}", hex(&blob), hex(sig.as_bytes())));
                let Some(o) = o else { continue };
                t.ctx[c].push(format!("get {ctx} 8"));
                let h = fnv(fnv(fnv(BASIS, &id.to_le_bytes()), &blob), sig.as_bytes());
                (*o, if *o == Flt { ((h % 4096) as f64 / 8.0 - 256.0).to_bits() } else { h })
            }
            Step::Helper(h, c, a) => {
                let mut e = consts();
                for (ty, v) in HELPER_INS.iter().zip(pick(env, a)) {
                    e.get_mut(ty).unwrap().insert(0, v);
                }
                expect(&helpers[*h], helpers, &mut e, ids, t, &[map[*c]], false);
                (Int, *e[&Int].last().unwrap())
            }
        };
        env.get_mut(&ty).unwrap().push(v);
        if report {
            let k = t.reports.len();
            t.reports.push(match ty {
                Flt => format!("result_f64:r{k}={}", crate::interp::fnum(f64::from_bits(v))),
                _ => format!("result_int:r{k}={}", v as i64),
            });
        }
    }
}
fn consts() -> Env<u64> {
    BTreeMap::from([(Int, vec![0, u64::MAX, 0x0123456789abcdef]), (Usize, vec![3, 1 << 40]), (Flt, vec![0.5f64.to_bits(), (-1e300f64).to_bits()]), (Bool, vec![0, 1])])
}
fn load(b: &mut impl Dataflow) -> Env<Wire> {
    let mut e = Env::new();
    for (t, vs) in consts() {
        let ws = vs
            .into_iter()
            .map(|v| {
                b.add_load_value(match t {
                    Int => c_i(6, v),
                    Usize => c_u(v),
                    Flt => c_f(f64::from_bits(v)),
                    Bool => c_b(v == 1),
                })
            })
            .collect();
        e.insert(t, ws);
    }
    e
}
pub fn gpu(c: &mut Case) -> Res {
    let n = c.src.below(3);
    let mut helpers: Vec<Vec<Step>> = vec![];
    for i in 0..n {
        helpers.push(steps(&mut c.src, 3, 1, i));
    }
    let k = c.src.weighted(&[3, 1]) + 1;
    let first = c.src.below(3);
    let ids: Vec<usize> = (0..k).map(|i| first + 5 * i).collect();
    let main = steps(&mut c.src, 7, k, n);
    let conf = if c.src.flip() { Some("conf".to_string()) } else { None };
    let emit = |hs: &mut Vec<_>| -> Result<Hugr, hugr::builder::BuildError> {
        let mut mb = ModuleBuilder::new();
        for (i, s) in helpers.iter().enumerate() {
            let g = hugr::types::Type::from(GpuType::Context);
            let mut ins = vec![g.clone()];
            ins.extend(HELPER_INS.iter().map(|t| t.ty()));
            let mut b = mb.define_function(format!("helper{i}"), Signature::new(row(&ins), row(&[g, t_i(6)])))?;
            let w: Vec<Wire> = b.input_wires().collect();
            let mut e = load(&mut b);
            for (t, w) in HELPER_INS.iter().zip(&w[1..]) {
                e.get_mut(t).unwrap().insert(0, *w);
            }
            let mut ctx = [w[0]];
            Emit { module: ("lib.so".into(), conf.clone()), helpers: hs }.go(&mut b, s, &mut e, &mut ctx, &mut 0, false);
            let last = *e[&Int].last().unwrap();
            hs.push(b.finish_with_outputs([ctx[0], last])?);
        }
        let mut b = mb.define_function_vis("main", Signature::new(row(&[]), row(&[])), hugr_core::Visibility::Public)?;
        let mut e = load(&mut b);
        let mut ctx = vec![];
        for i in &ids {
            let w = b.add_load_value(c_u(*i as u64));
            let o = b.add_get_context(w)?;
            let [x] = b.build_unwrap_sum(1, option_type(hugr::types::Type::from(GpuType::Context)), o)?;
            ctx.push(x);
        }
        Emit { module: ("lib.so".into(), conf.clone()), helpers: hs }.go(&mut b, &main, &mut e, &mut ctx, &mut 0, true);
        for w in ctx {
            b.add_dispose_context(w)?;
        }
        let f = b.finish_with_outputs([])?;
        let mut h = mb.hugr().clone();
        h.set_entrypoint(f.node());
        Ok(h)
    };
    let h = emit(&mut vec![]).expect("cannot build a program");
    must_validate(&h, "generated program");
    let opt = c.src.below(4) as u32;
    let form = c.src.below(4);
    let mut t = Told { ctx: ids.iter().map(|i| vec![format!("init {i}")]).collect(), ..Default::default() };
    let map: Vec<usize> = (0..k).collect();
    expect(&main, &helpers, &mut consts(), &ids, &mut t, &map, true);
    for (v, i) in t.ctx.iter_mut().zip(&ids) {
        v.push(format!("discard {}", 7000 + i));
    }
    let total = 1 + t.ctx.iter().map(|v| v.len()).sum::<usize>() + t.names.len();
    let fail_at = if c.src.chance(1, 3) { c.src.range(1, total) } else { 0 };
    c.describe(|| format!("opt level {opt}, envelope {form}, call {fail_at} of {total} fails\nhelpers {helpers:?}\ncontexts {ids:?}\nmain {main:?}"));
    c.fingerprint(&format!("{helpers:?}{main:?}{fail_at}"));
    c.label(if fail_at > 0 { "failing library" } else { "obliging library" });
    let bytes = envelope(&h, form);
    let bc = match compiler("bc", opt, &bytes)? {
        Ok(b) => b,
        Err(e) => return fail(format!("gpu: refused: {}", e.chars().take(70).collect::<String>().replace('`', "'")), format!("{e}\n{}", show(&h))),
    };
    let text = execute(&bc, 1, fail_at)?;
    // what the library saw
    let mut seen: Vec<Vec<String>> = vec![vec![]; k];
    let mut names: Vec<String> = vec![];
    let mut reports = vec![];
    let mut end = None;
    let (mut count, mut valid_at, mut errors) = (0, vec![], 0);
    for l in text.lines() {
        let (a, r) = l.split_once(' ').unwrap_or((l, ""));
        match a {
            "P" => {
                let f: Vec<&str> = l.splitn(8, ' ').collect();
                ensure!(end.is_none(), "gpu: branches", "{text}");
                end = Some((f[2].to_string(), f[3].to_string(), f[7].to_string()));
            }
            "E" => match event(l) {
                Ok(e) => reports.push(e),
                Err(e) => return fail("gpu: malformed report", format!("{e}: {l}")),
            },
            "G" => {
                let f: Vec<&str> = r.split(' ').collect();
                if f[0] == "error" {
                    errors += 1;
                    continue;
                }
                count += 1;
                ensure!(errors == 0, "gpu: calls after a failure", "{text}");
                match f[0] {
                    "validate" => {
                        ensure!(r == "validate 0 1 0", "gpu: version", "{text}");
                        valid_at.push(count);
                    }
                    "lookup" => {
                        let Some(n) = unhex(&f[1][1..]) else { return fail("gpu: name of a function", text) };
                        ensure!(!names.contains(&n), "gpu: function looked up twice", "{n} in\n{text}");
                        names.push(n);
                    }
                    "init" => {
                        let Some(i) = ids.iter().position(|i| f[1] == i.to_string()) else { return fail("gpu: another context", text) };
                        seen[i].push(r.to_string());
                    }
                    _ => {
                        let Some(i) = ids.iter().position(|i| f[1] == (7000 + i).to_string()) else { return fail("gpu: another context", text) };
                        seen[i].push(r.to_string());
                    }
                }
            }
            "END" => break,
            _ => return fail("gpu: cannot run", text),
        }
    }
    let Some((how, code, why)) = end else { return fail("gpu: cannot run", text) };
    ensure!(how != "3", "gpu: wrong use of the library", "{why}\n{text}");
    ensure!(valid_at == [1], "gpu: version check", "calls {valid_at:?} instead of the first\n{text}");
    ensure!(names.iter().all(|n| t.names.contains(n)), "gpu: another function", "{names:?} instead of {:?}", t.names);
    let mut want = t.reports.clone();
    if fail_at == 0 {
        ensure!(how == "1", "gpu: ends badly", "{how} {code} {why}\n{text}");
        ensure!(seen == t.ctx, "gpu: other calls", "{seen:#?}\ninstead of {:#?}", t.ctx);
        ensure!(names.len() == t.names.len(), "gpu: functions not looked up", "{names:?} instead of {:?}", t.names);
        want.sort();
        reports.sort();
        ensure!(want == reports, "gpu: other results", "{reports:?} instead of {want:?}");
    } else {
        let m = if fail_at % 3 == 0 { "No error message available" } else { "the library says no" };
        ensure!(how == "2" && code == "70002" && why == m, "gpu: failure of the library", "{how} {code} `{why}` instead of a panic with `{m}`\n{text}");
        ensure!(count == fail_at && errors == 1, "gpu: calls after a failure", "{count} calls, {errors} queries\n{text}");
        for (a, b) in seen.iter().zip(&t.ctx) {
            ensure!(b.starts_with(a), "gpu: other calls", "{a:#?}\ninstead of {b:#?}");
        }
        ensure!(reports.iter().all(|r| want.contains(r)), "gpu: other results", "{reports:?} instead of {want:?}");
    }
    c.nontrivial = total > 5;
    Ok(())
}
