//! Not a property: the generators and the interpreter agree with themselves.
use super::common::*;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::run::*;
use crate::ensure;
use K::*;
pub fn full_cfg() -> Cfg {
    let mut c = Cfg::new(PURE_GATES).with(&[
        (Alloc, 2), (TryAlloc, 1), (K::Free, 1), (Reset, 1), (Meas, 2), (MeasFree, 1), (Rot, 2), (Flt, 2), (Log, 2), (TB, 2), (Int, 2), (Conv, 1), (Tup, 2), (Untup, 2),
        (TagOp, 1), (Noop, 1), (Barrier, 1), (Dfg, 2), (Cond, 2), (Loop, 1), (CfgN, 1), (Call, 2), (CallInd, 1), (Arr, 2), (ArrOp, 2), (Bor, 2), (ResOp, 2), (ResArr, 1),
        (StateRes, 1), (Unknown, 1), (Decl, 1), (QRz, 1), (QPx, 1), (QZz, 1), (QMeas, 1), (QMeasReset, 1), (QReset, 1), (QFree, 1), (Lazy, 1), (Fut, 2), (RtBarrier, 1), (Order, 1),
        (Panic, 1), (Const, 1), (UnwrapSum, 1), (RngOp, 1), (Shot, 1), (DropOp, 1), (SArr, 1), (Print, 1), (Phase, 1),
    ]);
    c.funcs = 2;
    c.ops = (0, 20);
    c.const_away = true;
    c.computed_angles = true;
    c
}
fn run(c: &mut Case) -> Res {
    let p = program(&mut c.src, &full_cfg());
    must_validate(&p.h, "generated program");
    label_feats(c, &p);
    c.describe(|| show(&p.h));
    let o = SimOpts::default();
    let s = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let (h2, map) = relabel(&p.h, &mut c.src, true);
    must_validate(&h2, "relabelled program");
    let w: f64 = s.obs.values().flatten().flatten().map(|c| c.n2()).sum();
    ensure!((w - 1.0).abs() < 1e-6, "weight", "total weight {w}");
    same_meaning("relabel", &s, &h2, map[&p.main], &p.ins, &p.outs, &o)?;
    c.nontrivial = s.paths > 1;
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "SELF", rule: "", assumptions: &[], suites: vec![Suite { name: "gen", quick: 4000, thorough: 100000, run }], hang_violation: None }
}
