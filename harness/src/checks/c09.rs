//! C09: greedy commutation.
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::run::*;
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::{Hugr, HugrView, Node, PortIndex};
use std::collections::{BTreeMap, HashMap};
use tket::passes::apply_greedy_commutation;
use tket::Circuit;
use K::*;

/// Longest chain of operations on linear values in a region, through every kind of dependency.
pub fn depth(h: &Hugr, region: Node) -> usize {
    fn go(h: &Hugr, region: Node, n: Node, memo: &mut HashMap<Node, usize>) -> usize {
        if let Some(d) = memo.get(&n) {
            return *d;
        }
        let mut d = 0;
        for s in h.input_neighbours(n) {
            if h.get_parent(s) == Some(region) {
                d = d.max(go(h, region, s, memo));
            }
        }
        let tag = h.get_optype(n).tag();
        if tag != OpTag::Input && tag != OpTag::Output {
            let lin = h.signature(n).is_some_and(|s| s.input.iter().chain(s.output.iter()).any(|t| !t.copyable()));
            d += lin as usize;
        }
        memo.insert(n, d);
        d
    }
    let mut memo = HashMap::new();
    h.children(region).map(|n| go(h, region, n, &mut memo)).max().unwrap_or(0)
}
pub fn op_multiset(h: &Hugr) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for n in h.descendants(h.module_root()) {
        let k = match h.get_optype(n) {
            OpType::ExtensionOp(e) => format!("{}{:?}", e.qualified_id(), e.args()),
            o => format!("{o:?}"),
        };
        *m.entry(k).or_default() += 1;
    }
    m
}
/// Edges by node and port, to tell whether anything moved.
pub fn edges(h: &Hugr) -> Vec<(usize, usize, usize, usize)> {
    use hugr::NodeIndex;
    let mut v = vec![];
    for n in h.descendants(h.module_root()) {
        for p in h.node_outputs(n) {
            for (t, tp) in h.linked_inputs(n, p) {
                v.push((n.index(), p.index(), t.index(), tp.index()));
            }
        }
    }
    v.sort();
    v
}

fn go(c: &mut Case, cfg: &Cfg) -> Res {
    let p = program(&mut c.src, cfg);
    must_validate(&p.h, "generated program");
    c.describe(|| show(&p.h));
    label_feats(c, &p);
    let o = SimOpts::default();
    let before = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let mut circ = Circuit::new(p.h.clone());
    let r = no_panic("commutation", || apply_greedy_commutation(&mut circ))?;
    let moves = match r {
        Ok(m) => m,
        Err(e) => return fail(format!("commutation: error {}", kind_of(&format!("{e:?}"))), format!("{e}")),
    };
    let h = circ.into_hugr();
    valid(&h, "commutation")?;
    ensure!(h.entrypoint() == p.h.entrypoint(), "commutation: entrypoint", "entrypoint moved");
    ensure!(op_multiset(&h) == op_multiset(&p.h), "commutation: operations changed", "{}", show(&h));
    let changed = edges(&h) != edges(&p.h);
    ensure!(!changed || moves > 0, "commutation: count", "the circuit changed but 0 moves are reported\n{}", show(&h));
    let (d0, d1) = (depth(&p.h, p.main), depth(&h, p.main));
    ensure!(d1 <= d0, "commutation: deeper", "depth {d0} becomes {d1}\n{}", show(&h));
    ensure!(moves as usize <= p.h.num_nodes() * d0, "commutation: count", "{moves} moves");
    same_meaning("commutation", &before, &h, p.main, &p.ins, &p.outs, &o)?;
    c.nontrivial = changed;
    if d1 < d0 {
        c.label("shallower");
    }
    c.fingerprint(&show(&p.h));
    Ok(())
}
fn pure(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(G1, 4), (GRot, 3), (G2, 10), (CRz, 1), (G3, 1)]);
    k.ops = (2, 24);
    k.n_ins = (2, 5);
    k.ins = vec![(t_q(), 8), (t_r(), 1)];
    k.max_qubits = 5;
    go(c, &k)
}
fn mixed(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(G1, 4), (GRot, 5), (G2, 12), (CRz, 1), (G3, 1)]).with(&[
        (Alloc, 2), (K::Free, 1), (Reset, 1), (Meas, 3), (MeasFree, 1), (Rot, 2), (Flt, 1), (Conv, 1), (Log, 1), (Tup, 1), (Untup, 1), (Barrier, 2), (Dfg, 2), (Cond, 2), (Loop, 1), (Call, 1), (Arr, 1),
        (ArrOp, 1), (ResOp, 1), (Unknown, 1), (QRz, 1), (QZz, 1), (Order, 3), (TryAlloc, 1), (Phase, 1),
    ]);
    k.ops = (2, 18);
    k.n_ins = (1, 4);
    k.funcs = 1;
    k.computed_angles = true;
    k.max_qubits = 5;
    k.max_measures = 4;
    go(c, &k)
}
pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "the pass changed the circuit",
        assumptions: &["depth is the longest chain of operations on linear values through any dependency"],
        suites: vec![Suite { name: "pure", quick: 200000, thorough: 8000000, run: pure }, Suite { name: "mixed", quick: 200000, thorough: 8000000, run: mixed }],
        hang_violation: None,
    }
}
