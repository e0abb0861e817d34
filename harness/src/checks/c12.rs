//! C12: NormalizeGuppy.
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::run::*;
use hugr::algorithms::const_fold::ConstantFoldPass;
use hugr::algorithms::inline_dfgs::InlineDFGsPass;
use hugr::algorithms::normalize_cfgs::NormalizeCFGPass;
use hugr::algorithms::untuple::UntupleRecursive;
use hugr::algorithms::{ComposablePass, RemoveDeadFuncsPass, UntuplePass};
use hugr::ops::OpType;
use hugr::{Hugr, HugrView};
use hugr_core::Visibility;
use std::collections::BTreeMap;
use tket::passes::NormalizeGuppy;
use K::*;

/// The public functions of the module with their types.
pub fn public(h: &Hugr) -> BTreeMap<String, String> {
    h.children(h.module_root())
        .filter_map(|n| match h.get_optype(n) {
            OpType::FuncDefn(f) if *f.visibility() == Visibility::Public => Some((f.func_name().clone(), format!("def {:?}", f.signature()))),
            OpType::FuncDecl(f) if *f.visibility() == Visibility::Public => Some((f.func_name().clone(), format!("decl {:?}", f.signature()))),
            _ => None,
        })
        .collect()
}
pub fn n_ops(h: &Hugr) -> usize {
    h.descendants(h.module_root()).count()
}

fn go(c: &mut Case, cfg: &Cfg, o: &SimOpts) -> Res {
    let opts: Vec<bool> = if c.src.chance(1, 3) {
        vec![true; 6]
    } else if c.src.chance(1, 3) {
        let i = c.src.below(6);
        (0..6).map(|j| i == j).collect()
    } else { (0..6).map(|_| c.src.flip()).collect() };
    let p = program(&mut c.src, cfg);
    must_validate(&p.h, "generated program");
    c.describe(|| format!("options cfgs/untuple/fold/dead/inline/squash = {opts:?}\n{}", show(&p.h)));
    label_feats(c, &p);
    let before = sim_before(&p.h, p.main, &p.ins, &p.outs, o)?;
    let r = judge(&p, &opts, &before, o);
    if let Err(Stop::Fail { sig, detail }) = &r {
        if let Some(w) = blame(&p.h, &opts, |h| same_meaning("", &before, h, h.entrypoint(), &p.ins, &p.outs, o)) {
            return fail(format!("in hugr's {w}"), format!("{w} (of hugr-passes) alone breaks the program\n{sig}\n{detail}"));
        }
    }
    c.nontrivial = r?;
    c.fingerprint(&show(&p.h));
    Ok(())
}
fn judge(p: &Program, opts: &[bool], before: &Summary, o: &SimOpts) -> Res<bool> {
    let mut h = p.h.clone();
    let mut pass = NormalizeGuppy::default();
    pass.simplify_cfgs(opts[0]).remove_tuple_untuple(opts[1]).constant_folding(opts[2]).remove_dead_funcs(opts[3]).inline_dfgs(opts[4]).squash_borrows(opts[5]);
    match no_panic("NormalizeGuppy", || pass.run(&mut h))? {
        Ok(()) => {}
        Err(e) => return fail("NormalizeGuppy: error", e.to_string()),
    }
    valid(&h, "NormalizeGuppy")?;
    let e = h.entrypoint();
    ensure!(h.signature(e) == p.h.signature(p.main), "NormalizeGuppy: signature", "the entry point's signature changed");
    ensure!(public(&h) == public(&p.h), "NormalizeGuppy: interface", "public functions {:?} become {:?}", public(&p.h), public(&h));
    if !opts.iter().any(|x| *x) {
        ensure!(show(&h) == show(&p.h), "NormalizeGuppy: no options", "all options are off, yet the program changes");
    }
    same_meaning("NormalizeGuppy", before, &h, e, &p.ins, &p.outs, o)?;
    if opts.iter().filter(|x| **x).count() == 1 {
        // the option does (at least) what the pass it stands for does
        let mut g = p.h.clone();
        let (name, f) = steps(opts).pop().unwrap_or(("BorrowSquash", Box::new(|h: &mut Hugr| tket::passes::BorrowSquashPass::default().run(h).is_ok())));
        if matches!(catch(|| f(&mut g)), Ok(true)) {
            ensure!(n_ops(&h) <= n_ops(&g), "NormalizeGuppy: an option without effect", "with its option only, {} nodes are left; {name} leaves {}", n_ops(&h), n_ops(&g));
        }
    }
    Ok(show(&h) != show(&p.h))
}
type Step = (&'static str, Box<dyn Fn(&mut Hugr) -> bool>);
fn steps(opts: &[bool]) -> Vec<Step> {
        let mut steps: Vec<Step> = vec![];
        if opts[0] {
            steps.push(("NormalizeCFGPass", Box::new(|h| NormalizeCFGPass::default().run(h).is_ok())));
        }
        if opts[1] {
            steps.push(("UntuplePass", Box::new(|h| UntuplePass::new(UntupleRecursive::Recursive).run(h).is_ok())));
        }
        if opts[2] {
            steps.push(("ConstantFoldPass", Box::new(|h| ConstantFoldPass::default().run(h).is_ok())));
        }
        if opts[3] {
            steps.push(("RemoveDeadFuncsPass", Box::new(|h| RemoveDeadFuncsPass::default().run(h).is_ok())));
        }
        if opts[4] {
            steps.push(("InlineDFGsPass", Box::new(|h| InlineDFGsPass.run(h).is_ok())));
        }
    steps
}
/// The passes of hugr-passes that NormalizeGuppy is made of, run one by one: the first that breaks the program by itself.
pub fn blame(h: &Hugr, opts: &[bool], same: impl Fn(&Hugr) -> Res) -> Option<&'static str> {
    for _ in 0..3 {
        let mut h = h.clone();
        for (name, f) in steps(opts) {
            match catch(|| f(&mut h)) {
                Ok(true) => {}
                _ => return Some(name),
            }
            if !matches!(catch(|| h.validate().is_ok()), Ok(true)) || matches!(same(&h), Err(Stop::Fail { .. })) {
                return Some(name);
            }
        }
    }
    None
}
pub fn opts() -> SimOpts {
    SimOpts { needed_only: true, ..Default::default() }
}
pub fn wide() -> Cfg {
    let mut k = Cfg::new(&[(G1, 4), (GRot, 3), (G2, 4), (CRz, 1)]).with(&[
        (Alloc, 2), (K::Free, 1), (Reset, 1), (Meas, 3), (MeasFree, 2), (Rot, 2), (Flt, 3), (Log, 3), (TB, 2), (Int, 3), (Conv, 2), (Tup, 3), (Untup, 3), (TagOp, 2), (UnwrapSum, 2), (Noop, 2), (Dfg, 4), (Cond, 4), (Loop, 2),
        (CfgN, 4), (Call, 3), (CallInd, 1), (Arr, 2), (ArrOp, 2), (ResOp, 3), (Const, 3), (Barrier, 1), (Order, 1), (TryAlloc, 1), (SArr, 1),
    ]);
    k.ops = (1, 14);
    k.funcs = 2;
    k.const_away = true;
    k.computed_angles = true;
    k.max_qubits = 5;
    k.max_measures = 4;
    k.out_copy = 3;
    k.ins.push((t_i(6), 1));
    k
}
fn mixed(c: &mut Case) -> Res {
    go(c, &wide(), &opts())
}
fn arrays(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(G1, 3), (G2, 3)]).with(&[(Arr, 4), (ArrOp, 3), (Bor, 8), (Int, 2), (Log, 1), (Dfg, 2), (Cond, 2), (Loop, 1), (CfgN, 1), (Call, 2), (Meas, 1), (Tup, 2), (Untup, 2), (Const, 2)]);
    k.ins = vec![(t_q(), 3), (t_b(), 2), (t_u(), 1), (t_arr(AK::Borrow, 2, t_q()), 3), (t_arr(AK::Borrow, 3, t_b()), 3)];
    k.arr_kinds = vec![AK::Borrow];
    k.ops = (1, 12);
    k.funcs = 1;
    k.max_qubits = 6;
    k.out_copy = 3;
    go(c, &k, &opts())
}
/// Reported results stay in order.
fn events(c: &mut Case) -> Res {
    let mut k = wide().with(&[(ResOp, 12), (StateRes, 1)]);
    k.chain_events = true;
    let mut o = opts();
    o.ordered_events = true;
    go(c, &k, &o)
}
pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "the pass changes the program",
        assumptions: &[],
        suites: vec![
            Suite { name: "mixed", quick: 60000, thorough: 3000000, run: mixed },
            Suite { name: "arrays", quick: 40000, thorough: 2000000, run: arrays },
            Suite { name: "events", quick: 40000, thorough: 1500000, run: events },
        ],
        hang_violation: None,
    }
}
