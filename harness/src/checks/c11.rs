//! C11: removing tuple pack/unpack pairs.
use super::c09::op_multiset;
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::run::*;
use hugr::algorithms::untuple::UntupleRecursive;
use hugr::algorithms::{ComposablePass, UntuplePass};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node};
use std::collections::BTreeMap;
use tket::Circuit;
use K::*;

fn is(h: &Hugr, n: Node, name: &str) -> bool {
    matches!(h.get_optype(n), OpType::ExtensionOp(e) if e.qualified_id().to_string() == name)
}
/// Packings of a region with a direct unpacking there.
pub fn pairs(h: &Hugr, region: Node) -> Vec<Node> {
    h.children(region)
        .filter(|n| {
            is(h, *n, "prelude.MakeTuple") && !ordered(h, *n) && h.linked_inputs(*n, 0).any(|(m, _)| is(h, m, "prelude.UnpackTuple") && h.get_parent(m) == Some(region) && !ordered(h, m))
        })
        .collect()
}
/// has state-order edges (such operations are left alone)
fn ordered(h: &Hugr, n: Node) -> bool {
    let op = h.get_optype(n);
    op.other_input_port().is_some_and(|p| h.is_linked(n, p)) || op.other_output_port().is_some_and(|p| h.is_linked(n, p))
}
fn others(h: &Hugr) -> BTreeMap<String, usize> {
    op_multiset(h).into_iter().filter(|(k, _)| !k.starts_with("prelude.MakeTuple") && !k.starts_with("prelude.UnpackTuple")).collect()
}
fn count(h: &Hugr) -> usize {
    h.descendants(h.module_root()).filter(|n| is(h, *n, "prelude.MakeTuple") || is(h, *n, "prelude.UnpackTuple")).count()
}

fn go(c: &mut Case, cfg: &Cfg) -> Res {
    let p = program(&mut c.src, cfg);
    must_validate(&p.h, "generated program");
    c.describe(|| show(&p.h));
    label_feats(c, &p);
    let o = SimOpts::default();
    let before = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let n_pairs = pairs(&p.h, p.main).len();
    let mut circ = Circuit::new(p.h.clone());
    let rest = others(&p.h);
    let mut steps = 0;
    loop {
        #[allow(deprecated)]
        let rws = no_panic("find_tuple_unpack_rewrites", || tket::passes::tuple_unpack::find_tuple_unpack_rewrites(&circ).collect::<Vec<_>>())?;
        let here = pairs(circ.hugr(), circ.parent());
        ensure!(rws.len() == here.len(), "tuple_unpack: rewrites offered", "{} rewrites for {} packings with unpackings", rws.len(), here.len());
        if rws.is_empty() {
            break;
        }
        let rw = c.src.take(&mut { rws });
        let n0 = count(circ.hugr());
        match no_panic("apply", || rw.apply(&mut circ))? {
            Ok(_) => {}
            Err(e) => return fail("tuple_unpack: the rewrite cannot be applied", format!("{e}\n{}", show(circ.hugr()))),
        }
        valid(circ.hugr(), "tuple_unpack")?;
        ensure!(count(circ.hugr()) < n0, "tuple_unpack: no progress", "{n0} tuple operations stay");
        steps += 1;
        ensure!(steps <= 60, "tuple_unpack: does not end", "{steps} steps");
    }
    let h = circ.hugr();
    ensure!(others(h) == rest, "tuple_unpack: other operations", "{rest:?} becomes {:?}", others(h));
    ensure!(h.signature(circ.parent()) == p.h.signature(p.main), "tuple_unpack: signature", "signature changed");
    same_meaning("tuple_unpack", &before, h, circ.parent(), &p.ins, &p.outs, &o)?;
    c.nontrivial = n_pairs > 0;
    c.fingerprint(&show(&p.h));
    Ok(())
}
/// Packing and unpacking by hand, with every pattern of sharing.
fn dense(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(Tup, 8), (Untup, 8), (G1, 1), (Log, 1), (Flt, 1)]);
    k.ops = (1, 10);
    k.n_ins = (1, 4);
    k.ins = vec![(t_q(), 3), (t_b(), 4), (t_f(), 2), (t_tup(vec![t_b(), t_q()]), 1), (t_tup(vec![t_b(), t_b()]), 2)];
    k.out_copy = 6;
    go(c, &k)
}
fn mixed(c: &mut Case) -> Res {
    let mut k = Cfg::new(PURE_GATES).with(&[(Tup, 16), (Untup, 16), (Meas, 3), (Alloc, 2), (K::Free, 1), (Log, 2), (Rot, 2), (Flt, 2), (Dfg, 2), (Cond, 2), (TagOp, 2), (UnwrapSum, 2), (Order, 3), (Barrier, 1), (ResOp, 1), (Call, 1)]);
    k.ops = (1, 16);
    k.ins = vec![(t_q(), 3), (t_b(), 2), (t_f(), 1), (t_r(), 1), (t_tup(vec![t_b(), t_q()]), 1)];
    k.out_copy = 5;
    k.funcs = 1;
    k.computed_angles = true;
    k.const_away = true;
    go(c, &k)
}
/// Preparing a circuit for pytket, which removes tuples among others.
fn lowered(c: &mut Case) -> Res {
    let mut k = Cfg::new(PURE_GATES).with(&[(Tup, 16), (Untup, 16), (Meas, 3), (Log, 2), (Rot, 2), (Flt, 2), (Dfg, 3), (Cond, 2), (TagOp, 2), (Order, 2), (Call, 1)]);
    k.ops = (1, 14);
    k.ins = vec![(t_q(), 3), (t_b(), 2), (t_r(), 1), (t_tup(vec![t_b(), t_q()]), 1)];
    k.out_copy = 5;
    k.funcs = 1;
    let p = program(&mut c.src, &k);
    must_validate(&p.h, "generated program");
    label_feats(c, &p);
    let mut h = p.h;
    // any region of it
    let rs: Vec<Node> = super::c01::dataflow_regions(&h);
    let at = if c.src.flip() { p.main } else { *c.src.pick(&rs) };
    h.set_entrypoint(at);
    c.describe(|| show(&h));
    let o = SimOpts::default();
    let before = sim_before(&h, p.main, &p.ins, &p.outs, &o)?;
    let circ = Circuit::new(h.clone());
    let n = pairs(&h, at).len();
    let judge = || -> Res {
        let l = match no_panic("lower_to_pytket", || tket::passes::lower_to_pytket(&circ))? {
            Ok(l) => l,
            Err(e) => return fail("lower_to_pytket: refused", format!("{e}")),
        };
        ensure!(show(circ.hugr()) == show(&h), "lower_to_pytket: changes its argument", "it does");
        let g = l.hugr();
        valid(g, "lower_to_pytket")?;
        ensure!(g.entrypoint() == at && l.circuit_signature() == circ.circuit_signature(), "lower_to_pytket: signature", "another circuit");
        ensure!(others(g) == others(&h), "lower_to_pytket: other operations", "{:?} becomes {:?}", others(&h), others(g));
        ensure!(n == 0 || count(g) < count(&h), "lower_to_pytket: nothing is removed", "{n} pairs stay");
        same_meaning("lower_to_pytket", &before, g, p.main, &p.ins, &p.outs, &o)
    };
    if let Err(e) = judge() {
        // hugr's own pass, on its own
        let mut g = h.clone();
        let fine = matches!(catch(|| UntuplePass::new(UntupleRecursive::NonRecursive).run(&mut g).is_ok()), Ok(true))
            && matches!(catch(|| g.validate().is_ok()), Ok(true))
            && !matches!(same_meaning("", &before, &g, p.main, &p.ins, &p.outs, &o), Err(Stop::Fail { .. }));
        return match e {
            Stop::Fail { sig, detail } if !fine => fail("in hugr's UntuplePass", format!("{sig}: {detail}")),
            e => Err(e),
        };
    }
    c.nontrivial = n > 0;
    c.fingerprint(&show(&h));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "the program has at least one packing whose tuple is unpacked",
        assumptions: &[],
        suites: vec![Suite { name: "dense", quick: 60000, thorough: 3000000, run: dense }, Suite { name: "mixed", quick: 60000, thorough: 3000000, run: mixed }, Suite { name: "lowered", quick: 20000, thorough: 1000000, run: lowered }],
        hang_violation: None,
    }
}
