//! C10: splitting into chunks and reassembling.
use super::c09::op_multiset;
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::run::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort};
use std::collections::BTreeMap;
use tket::passes::CircuitChunks;
use tket::Circuit;
use K::*;

/// Removes one pair of adjacent self-inverse gates from a region, if there is one.
pub fn cancel_pair(h: &mut Hugr, region: Node) -> bool {
    let kids: Vec<Node> = h.children(region).collect();
    for n in kids {
        let OpType::ExtensionOp(e) = h.get_optype(n) else { continue };
        let name = e.qualified_id().to_string();
        let k = match name.as_str() {
            "tket.quantum.H" | "tket.quantum.X" | "tket.quantum.Y" | "tket.quantum.Z" => 1,
            "tket.quantum.CX" | "tket.quantum.CZ" | "tket.quantum.CY" => 2,
            _ => continue,
        };
        let Some((m, OutgoingPort { .. })) = h.single_linked_output(n, 0) else { continue };
        let OpType::ExtensionOp(e2) = h.get_optype(m) else { continue };
        if e2.qualified_id().to_string() != name {
            continue;
        }
        if !(0..k).all(|i| h.single_linked_output(n, i) == Some((m, OutgoingPort::from(i)))) {
            continue;
        }
        if h.input_neighbours(n).count() != k || h.output_neighbours(n).count() != k || h.input_neighbours(m).count() != k {
            continue;
        }
        for i in 0..k {
            let s = h.single_linked_output(m, i).unwrap();
            let t = h.single_linked_input(n, i).unwrap();
            h.disconnect(t.0, t.1);
            h.disconnect(m, IncomingPort::from(i));
            h.connect(s.0, s.1, t.0, t.1);
        }
        h.remove_node(n);
        h.remove_node(m);
        return true;
    }
    false
}
/// Puts a pair of cancelling gates on a random qubit wire of a region.
pub fn insert_pair(c: &mut Case, h: &mut Hugr, region: Node) -> bool {
    let mut cands = vec![];
    for n in h.children(region) {
        if let Some(s) = h.signature(n) {
            for (i, t) in s.output.iter().enumerate() {
                if is_q(t) {
                    cands.push((n, OutgoingPort::from(i)));
                }
            }
        }
    }
    if cands.is_empty() {
        return false;
    }
    let (n, p) = c.src.choose(&cands);
    let Some((t, tp)) = h.single_linked_input(n, p) else { return false };
    let (a, b) = c.src.choose(&[("H", "H"), ("S", "Sdg"), ("T", "Tdg"), ("V", "Vdg")]);
    h.disconnect(t, tp);
    let x = h.add_node_with_parent(region, q(a));
    let y = h.add_node_with_parent(region, q(b));
    h.connect(n, p, x, 0);
    h.connect(x, 0, y, 0);
    h.connect(y, 0, t, tp);
    true
}

fn weight(op: &OpType, salt: u64) -> usize {
    match salt % 3 {
        0 => 1,
        1 => (hash(&op.to_string()) % 4) as usize,
        _ => tket::circuit::cost::is_cx(op) as usize,
    }
}

/// What a region has beyond a flat dataflow graph.
fn beyond_flat(h: &Hugr, region: Node) -> &'static str {
    let (mut nested, mut calls, mut order) = (false, false, false);
    for n in h.children(region) {
        nested |= h.children(n).next().is_some();
        let op = h.get_optype(n);
        calls |= matches!(op, OpType::Call(_) | OpType::LoadFunction(_));
        if let Some(p) = op.other_output_port() {
            order |= h.linked_inputs(n, p).next().is_some();
        }
    }
    match (nested, calls, order) {
        (false, false, false) => "",
        (true, _, _) => "[nested] ",
        (_, true, _) => "[calls] ",
        (_, _, true) => "[order] ",
    }
}

fn go(c: &mut Case, cfg: &Cfg) -> Res {
    let p = program(&mut c.src, cfg);
    let class = beyond_flat(&p.h, p.main);
    if class != "" {
        c.label(class);
    }
    let fan = p.h.children(p.main).any(|n| p.h.node_outputs(n).any(|o| p.h.linked_inputs(n, o).count() > 1));
    go1(c, p).map_err(|e| match e {
        Stop::Fail { sig, detail } if class == "" && sig.contains("NotConvex") && fan => Stop::Fail { sig: format!("[fan-out] {sig}"), detail },
        // the recorded findings all fail when the chunks are extracted
        Stop::Fail { sig, detail } if class != "" && (sig.starts_with("split: panic") || sig.starts_with("chunk: invalid HUGR")) => {
            Stop::Fail { sig: format!("{class}chunks cannot be extracted"), detail }
        }
        e => e,
    })
}
fn go1(c: &mut Case, p: Program) -> Res {
    must_validate(&p.h, "generated program");
    c.describe(|| show(&p.h));
    label_feats(c, &p);
    let o = SimOpts::default();
    let before = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let circ = Circuit::new(p.h.clone());
    // constants may be copied, and cost nothing
    let h0 = |h: &Hugr, n: Node| h.get_optype(n).is_const();
    let total = circ.commands().filter(|x| !h0(circ.hugr(), x.node())).count();
    let salt = c.src.draw(6);
    let max = c.src.choose(&[1usize, 0, 2, 3, 5, 8, 100]);
    let by_size = c.src.flip();
    let mut chunks = no_panic("split", || {
        if by_size {
            CircuitChunks::split(&circ, max.max(1))
        } else {
            CircuitChunks::split_with_cost(&circ, max, |op| weight(op, salt))
        }
    })?;
    // every operation is in exactly one chunk
    let mut all: BTreeMap<String, usize> = BTreeMap::new();
    let mut n = 0;
    let nontriv = |h: &Hugr, e: Node| -> Vec<Node> { h.children(e).filter(|k| ![OpTag::Input, OpTag::Output].contains(&h.get_optype(*k).tag())).collect() };
    let key = |h: &Hugr, k: Node| match h.get_optype(k) {
        OpType::ExtensionOp(e) => format!("{}{:?}", e.qualified_id(), e.args()),
        o => format!("{o:?}"),
    };
    for ch in chunks.iter() {
        valid(ch.hugr(), "chunk")?;
        let kids = nontriv(ch.hugr(), ch.parent());
        let costs: Vec<usize> = kids.iter().filter(|k| !h0(ch.hugr(), **k)).map(|k| if by_size { 1 } else { weight(ch.hugr().get_optype(*k), salt) }).collect();
        let bound = if by_size { max.max(1) } else { max };
        let worst = costs.iter().copied().max().unwrap_or(0);
        ensure!(costs.iter().sum::<usize>() <= bound.max(worst), "chunk cost", "a chunk costs {} (operations {costs:?}), the bound is {bound}", costs.iter().sum::<usize>());
        for k in kids.into_iter().filter(|k| !h0(ch.hugr(), *k)) {
            n += 1;
            *all.entry(key(ch.hugr(), k)).or_default() += 1;
        }
    }
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    for x in circ.commands().filter(|x| !h0(circ.hugr(), x.node())) {
        *want.entry(key(circ.hugr(), x.node())).or_default() += 1;
    }
    ensure!(all == want && n == total, "chunk operations", "the chunks hold {all:?}, the circuit {want:?}");
    ensure!(chunks.len() == chunks.iter().count() && chunks.is_empty() == (chunks.len() == 0), "chunk count", "{}", chunks.len());
    let n_chunks = chunks.len();
    // change some chunks to equivalent ones
    let mut changed = 0;
    if c.src.chance(2, 3) {
        for i in 0..n_chunks {
            if !c.src.flip() {
                continue;
            }
            let mut h = chunks[i].hugr().clone();
            let e = h.entrypoint();
            match c.src.below(3) {
                0 => {
                    while cancel_pair(&mut h, e) {
                        changed += 1;
                    }
                }
                1 => changed += insert_pair(c, &mut h, e) as usize,
                _ => {
                    h = relabel(&h, &mut c.src, true).0;
                    changed += 1;
                }
            }
            chunks[i] = Circuit::new(h);
        }
    }
    c.describe(|| format!("{n_chunks} chunks (bound {max}), {changed} changes"));
    let r = no_panic("reassemble", || chunks.reassemble())?;
    let r = match r {
        Ok(r) => r,
        Err(e) => return fail("reassemble: error", e.to_string()),
    };
    let h = r.hugr();
    valid(h, "reassemble")?;
    let (s0, s1) = (circ.circuit_signature().into_owned(), r.circuit_signature().into_owned());
    ensure!(s0 == s1, "reassemble: signature", "{s0} becomes {s1}");
    ensure!(circ.name() == r.name(), "reassemble: name", "{:?} becomes {:?}", circ.name(), r.name());
    if changed == 0 {
        let inside = |h: &Hugr, e: Node| {
            let mut m = BTreeMap::new();
            for k in h.descendants(e).filter(|k| *k != e) {
                if matches!(h.get_optype(k), OpType::Const(_) | OpType::LoadConstant(_)) {
                    continue;
                }
                *m.entry(key(h, k)).or_insert(0) += 1;
            }
            m
        };
        ensure!(inside(circ.hugr(), circ.parent()) == inside(h, r.parent()), "reassemble: operations", "{:?} becomes {:?}", op_multiset(circ.hugr()), op_multiset(h));
    }
    same_meaning("reassemble", &before, h, r.parent(), &p.ins, &p.outs, &o)?;
    c.nontrivial = n_chunks >= 2;
    if changed > 0 {
        c.label("chunks changed");
    }
    c.fingerprint(&show(&p.h));
    Ok(())
}
fn pure(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(G1, 8), (GRot, 3), (G2, 8), (CRz, 1), (G3, 1)]);
    k.ops = (0, 20);
    k.n_ins = (1, 4);
    k.ins = vec![(t_q(), 8), (t_r(), 1), (t_b(), 1)];
    k.max_qubits = 4;
    k.out_copy = 3;
    go(c, &k)
}
fn mixed(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(G1, 4), (GRot, 5), (G2, 6), (CRz, 1), (G3, 1)]).with(&[
        (Alloc, 2), (K::Free, 1), (Reset, 1), (Meas, 3), (MeasFree, 1), (Rot, 2), (Flt, 1), (Conv, 1), (Log, 1), (Tup, 1), (Untup, 1), (Barrier, 2), (Arr, 1),
        (ArrOp, 1), (ResOp, 1), (Unknown, 1), (QRz, 1), (QZz, 1), (Phase, 1),
    ]);
    k.ops = (0, 14);
    k.n_ins = (1, 4);
    k.computed_angles = true;
    k.max_qubits = 5;
    k.max_measures = 4;
    k.out_copy = 3;
    go(c, &k)
}
fn full(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(G1, 4), (GRot, 5), (G2, 6)]).with(&[(Meas, 2), (Rot, 2), (Log, 1), (Dfg, 1), (Cond, 1), (Loop, 1), (CfgN, 1), (TryAlloc, 1), (Call, 3), (CallInd, 1), (Order, 4), (Const, 2), (ResOp, 3)]);
    k.ops = (0, 12);
    k.n_ins = (1, 4);
    k.funcs = 2;
    k.const_away = true;
    k.computed_angles = true;
    k.max_qubits = 5;
    k.max_measures = 4;
    k.out_copy = 3;
    go(c, &k)
}
pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "at least two chunks",
        assumptions: &[],
        suites: vec![
            Suite { name: "pure", quick: 80000, thorough: 1000000, run: pure },
            Suite { name: "mixed", quick: 80000, thorough: 1500000, run: mixed },
            Suite { name: "full", quick: 10000, thorough: 500000, run: full },
        ],
        hang_violation: None,
    }
}
