//! C25: lazy measurement; C27: the whole hardware pipeline.
use super::c24::ext_of;
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::run::*;
use hugr::algorithms::ComposablePass;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView};
use tket_qsystem::replace_bools::ReplaceBoolPass;
use tket_qsystem::QSystemPass;
use K::*;

fn no_eager(h: &Hugr, what: &str) -> Res {
    for n in h.descendants(h.module_root()) {
        if let Some((e, o)) = ext_of(h, n) {
            let eager = matches!((e.as_str(), o.as_str()), ("tket.quantum", "MeasureFree") | ("tket.qsystem", "Measure") | ("tket.qsystem", "MeasureReset")) || e == "tket.bool";
            ensure!(!eager, format!("{what}: {e}.{o} left"), "{n} is still {e}.{o}\n{}", show(h));
        }
    }
    ensure!(!show(h).contains("tket.bool"), format!("{what}: tket.bool left"), "{}", show(h));
    Ok(())
}
/// `collections.array.get` of a type holding the opaque boolean, which becomes linear: documented to be refused.
pub fn plain_get(h: &Hugr) -> bool {
    h.descendants(h.module_root()).any(|n| match h.get_optype(n) {
        OpType::ExtensionOp(e) => e.def().extension_id().to_string() == "collections.array" && e.def().name() == "get" && format!("{}", e.args()[1]).contains("bool"),
        _ => false,
    })
}
/// Runs the program again after its booleans became lazy: inputs arrive as plain booleans and as futures.
fn same_lazy(what: &str, before: &Summary, h: &Hugr, p: &Program, o: &SimOpts) -> Res {
    for v in [1u8, 2] {
        let mut o = o.clone();
        o.lazy_inputs = v;
        same_meaning(what, before, h, p.main, &p.ins, &p.outs, &o)?;
        if !p.ins.iter().any(|t| format!("{t}").contains("bool")) {
            break;
        }
    }
    Ok(())
}
fn base() -> Cfg {
    let mut k = Cfg::new(&[(G1, 4), (G2, 3)]).with(&[
        (Alloc, 1), (K::Free, 1), (Meas, 2), (MeasFree, 5), (QMeas, 4), (QMeasReset, 4), (QReset, 1), (Lazy, 2), (Fut, 3), (TB, 12), (Log, 2), (Tup, 3), (Untup, 2), (TagOp, 2), (UnwrapSum, 2), (Noop, 1), (Dfg, 3), (Cond, 4), (Loop, 2),
        (CfgN, 2), (Call, 3), (Arr, 4), (ArrOp, 4), (DropOp, 2), (SArr, 2), (ResOp, 2), (K::Barrier, 1), (Const, 1), (Order, 2), (CallInd, 1),
    ]);
    k.ext_edges = false; // refused (hugr's ReplaceTypes)
    k.ops = (1, 14);
    k.funcs = 2;
    k.const_away = true;
    k.max_qubits = 4;
    k.max_measures = 4;
    k.out_copy = 4;
    k.ins = vec![(t_q(), 5), (t_b(), 1), (t_tb(), 3), (t_u(), 1), (t_tup(vec![t_tb(), t_q()]), 1), (t_arr(AK::Array, 2, t_tb()), 1), (t_arr(AK::Borrow, 2, t_tb()), 2), (t_opt(vec![t_tb()]), 1)];
    k
}
fn lazy_go(c: &mut Case, k: &Cfg) -> Res {
    let p = program(&mut c.src, k);
    must_validate(&p.h, "generated program");
    c.describe(|| show(&p.h));
    label_feats(c, &p);
    let o = SimOpts::default();
    let before = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let mut h = p.h.clone();
    use hugr::hugr::hugrmut::HugrMut;
    // as in the pipeline, the pass sees the whole module
    h.set_entrypoint(h.module_root());
    match no_panic("ReplaceBoolPass", || ReplaceBoolPass.run(&mut h))? {
        Ok(()) => {}
        Err(_) if plain_get(&p.h) => return Err(Stop::Discard("plain array get")),
        Err(e) => return fail("ReplaceBoolPass: error", e.to_string()),
    }
    valid(&h, "ReplaceBoolPass")?;
    no_eager(&h, "ReplaceBoolPass")?;
    ensure!(matches!(h.get_optype(p.main), OpType::FuncDefn(f) if f.func_name() == "main"), "ReplaceBoolPass: main", "main is gone");
    same_lazy("ReplaceBoolPass", &before, &h, &p, &o)?;
    c.nontrivial = show(&p.h).contains("tket.bool");
    c.fingerprint(&show(&p.h));
    Ok(())
}
fn mixed(c: &mut Case) -> Res {
    lazy_go(c, &base())
}
/// Arrays of booleans.
fn arrays(c: &mut Case) -> Res {
    let mut k = base().with(&[(Arr, 8), (ArrOp, 16), (Bor, 6), (DropOp, 4), (TB, 6)]);
    k.ins = vec![(t_q(), 3), (t_tb(), 2), (t_u(), 1), (t_arr(AK::Array, 2, t_tb()), 4), (t_arr(AK::Borrow, 2, t_tb()), 4), (t_arr(AK::Borrow, 2, t_arr(AK::Borrow, 1, t_tb())), 1), (t_arr(AK::Array, 1, t_tup(vec![t_tb(), t_b()])), 1)];
    lazy_go(c, &k)
}
pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "the program uses the opaque boolean type",
        assumptions: &[],
        suites: vec![Suite { name: "mixed", quick: 20000, thorough: 1000000, run: mixed }, Suite { name: "arrays", quick: 20000, thorough: 1000000, run: arrays }],
        hang_violation: None,
    }
}

fn pipeline_go(c: &mut Case, mut k: Cfg, ordered: bool) -> Res {
    k.chain_events = ordered;
    let p = program(&mut c.src, &k);
    must_validate(&p.h, "generated program");
    let f: Vec<bool> = if c.src.chance(1, 2) { vec![false, true, true, true] } else { (0..4).map(|_| c.src.flip()).collect() };
    c.describe(|| format!("constant_fold/monomorphize/force_order/lazify = {f:?}\n{}", show(&p.h)));
    label_feats(c, &p);
    let o = SimOpts { ordered_events: ordered, ..Default::default() };
    let before = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let mut h = p.h.clone();
    use hugr::hugr::hugrmut::HugrMut;
    let module_entry = c.src.chance(1, 4);
    if module_entry {
        h.set_entrypoint(h.module_root());
    }
    let r = pipeline_judge(c, &p, &f, &before, &o, &mut h);
    if f[0] && matches!(r, Err(Stop::Fail { .. })) {
        // hugr's constant folding, run by itself on what the rest of the pipeline produces
        let mut g = p.h.clone();
        if matches!(catch(|| QSystemPass::default().with_constant_fold(false).with_monormophize(f[1]).with_force_order(false).with_lazify(f[3]).run(&mut g).is_ok()), Ok(true)) && same_after(&before, &g, &p, &o, f[3]).is_ok() {
            g.set_entrypoint(g.module_root());
            let ok = matches!(catch(|| hugr::algorithms::const_fold::constant_fold_pass(&mut g)), Ok(()));
            g.set_entrypoint(p.main);
            if !ok || !matches!(catch(|| g.validate().is_ok()), Ok(true)) || matches!(same_after(&before, &g, &p, &o, f[3]), Err(Stop::Fail { .. })) {
                let Err(Stop::Fail { sig, detail }) = r else { unreachable!() };
                return fail("in hugr's ConstantFoldPass", format!("ConstantFoldPass (of hugr-passes) alone breaks the program\n{sig}\n{detail}"));
            }
        }
    }
    r?;
    c.nontrivial = show(&p.h) != show(&h);
    c.fingerprint(&show(&p.h));
    Ok(())
}
fn same_after(before: &Summary, h: &Hugr, p: &Program, o: &SimOpts, lazy: bool) -> Res {
    if lazy {
        same_lazy("QSystemPass", before, h, p, o)
    } else {
        same_meaning("QSystemPass", before, h, p.main, &p.ins, &p.outs, o)
    }
}
fn pipeline_judge(_c: &mut Case, p: &Program, f: &[bool], before: &Summary, o: &SimOpts, h: &mut Hugr) -> Res {
    let pass = QSystemPass::default().with_constant_fold(f[0]).with_monormophize(f[1]).with_force_order(f[2]).with_lazify(f[3]);
    match no_panic("QSystemPass", || pass.run(h))? {
        Ok(()) => {}
        Err(_) if f[3] && plain_get(&p.h) => return Err(Stop::Discard("plain array get")),
        Err(e) => return fail("QSystemPass: error", e.to_string()),
    }
    valid(h, "QSystemPass")?;
    ensure!(h.entrypoint() == p.main, "QSystemPass: entry point", "the entry point is {} instead of {}", h.entrypoint(), p.main);
    for n in h.descendants(h.module_root()) {
        if let Some((e, op)) = ext_of(h, n) {
            ensure!(e != "tket.quantum", "QSystemPass: generic gates left", "{n}: {e}.{op}\n{}", show(h));
            ensure!(e != "tket.guppy", "QSystemPass: drops left", "{n}: {e}.{op}\n{}", show(h));
        }
    }
    if f[3] {
        no_eager(h, "QSystemPass")?;
    }
    if f[2] {
        // every region is totally ordered
        for r in super::c01::dataflow_regions(h) {
            totally_ordered(h, r, !has_order(&p.h))?;
        }
    }
    same_after(before, h, p, o, f[3])
}
/// The operations of a region (constants and their loads aside) can run in one order only.
fn totally_ordered(h: &Hugr, r: hugr::Node, ranked: bool) -> Res {
    let ns: Vec<hugr::Node> = h.children(r).filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_) | OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_))).collect();
    // longest path length must equal the number of operations
    let mut depth = std::collections::HashMap::new();
    fn d(h: &Hugr, r: hugr::Node, n: hugr::Node, m: &mut std::collections::HashMap<hugr::Node, usize>) -> usize {
        if let Some(x) = m.get(&n) {
            return *x;
        }
        let x = 1 + h.input_neighbours(n).filter(|p| h.get_parent(*p) == Some(r) && !matches!(h.get_optype(*p), OpType::Input(_) | OpType::Const(_))).map(|p| d(h, r, p, m)).max().unwrap_or(0);
        m.insert(n, x);
        x
    }
    let mut seen = std::collections::BTreeMap::new();
    for n in &ns {
        let k = d(h, r, *n, &mut depth);
        ensure!(seen.insert(k, *n).is_none(), "QSystemPass: not totally ordered", "two operations of {r} can run in either order (one is {n})\n{}", show(h));
    }
    if ranked {
        let seq: Vec<hugr::Node> = seen.values().copied().collect();
        for w in seq.windows(2) {
            let (a, b) = (w[0], w[1]);
            let data = (0..h.get_optype(a).value_output_count()).any(|p| h.linked_inputs(a, hugr::OutgoingPort::from(p)).any(|(m, _)| m == b));
            ensure!(rank(h, a) <= rank(h, b) || data, "QSystemPass: order of priorities", "{a} comes right before {b} although {b} should run as early as possible and does not need it\n{}", show(h));
        }
    }
    Ok(())
}
fn has_order(h: &Hugr) -> bool {
    h.descendants(h.module_root()).any(|n| h.get_optype(n).other_output_port().is_some_and(|p| h.is_linked(n, p)))
}
/// What runs first where nothing else decides: qubits are freed as early and allocated as late as possible, other
/// quantum operations start early, and futures are read late.
fn rank(h: &Hugr, n: hugr::Node) -> i32 {
    let Some((e, op)) = ext_of(h, n) else { return 0 };
    match (e.as_str(), op.as_str()) {
        ("tket.qsystem", "QFree") => -3,
        ("tket.qsystem", "TryQAlloc") => -1,
        ("tket.qsystem", "RuntimeBarrier") => 0,
        ("tket.qsystem", _) => -2,
        ("tket.futures", "Read") => 1,
        _ => 0,
    }
}
fn wide() -> Cfg {
    let mut k = base().with(&[(GRot, 3), (CRz, 1), (G3, 1), (TryAlloc, 1), (Reset, 1), (QRz, 1), (QPx, 1), (QZz, 1), (Rot, 2), (Flt, 2), (ResOp, 4), (ResArr, 2), (RngOp, 1), (Shot, 1), (K::Barrier, 2), (RtBarrier, 1), (Panic, 1), (Int, 1), (Conv, 1)]);
    k.computed_angles = true;
    k
}
fn pipeline(c: &mut Case) -> Res {
    pipeline_go(c, wide(), false)
}
fn pipeline_events(c: &mut Case) -> Res {
    pipeline_go(c, wide().with(&[(ResOp, 14), (Print, 2), (StateRes, 1)]), true)
}
pub fn prop27() -> Prop {
    Prop {
        id: "C27",
        rule: "the pipeline changes the program",
        assumptions: &[],
        suites: vec![Suite { name: "pipeline", quick: 12000, thorough: 600000, run: pipeline }, Suite { name: "events", quick: 8000, thorough: 400000, run: pipeline_events }],
        hang_violation: None,
    }
}
