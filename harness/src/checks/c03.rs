//! C03: circuit costs.
use super::c01::{counted, dataflow_regions};
use super::common::*;
use super::selftest::full_cfg;
use crate::ensure;
use crate::hb::*;
use crate::prog::*;
use crate::run::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::OpType;
use hugr::{HugrView, Node};
use std::num::NonZeroUsize;
use tket::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
use tket::Circuit;

fn weight(op: &OpType, salt: u64) -> usize {
    // constants may or may not be commands
    if matches!(op, OpType::Const(_) | OpType::LoadConstant(_)) {
        return 0;
    }
    (hash(&(op.to_string(), salt)) % 7) as usize
}

fn sums(c: &mut Case) -> Res {
    let mut cfg = full_cfg();
    cfg.max_qubits = 9;
    cfg.max_measures = 9;
    let p = program(&mut c.src, &cfg);
    must_validate(&p.h, "generated program");
    let mut h = p.h.clone();
    let regions = dataflow_regions(&h);
    let entry = if c.src.flip() { c.src.choose(&regions) } else { p.main };
    h.set_entrypoint(entry);
    c.describe(|| show(&h));
    label_feats(c, &p);
    let [inp, out] = h.get_io(entry).unwrap();
    let kids: Vec<Node> = h.children(entry).filter(|n| *n != inp && *n != out).collect();
    let circ = Circuit::new(&h);
    let salt = c.src.draw(1000);
    let want: usize = kids.iter().map(|n| weight(h.get_optype(*n), salt)).sum();
    let got: usize = no_panic("circuit_cost", || circ.circuit_cost(|op| weight(op, salt)))?;
    ensure!(got == want, "circuit_cost", "circuit_cost {got}, the operations sum to {want}");
    let lex = |op: &OpType| LexicographicCost::<usize, 3>::from([weight(op, salt), weight(op, salt + 1), is_quantum(op) as usize]);
    let got: LexicographicCost<usize, 3> = circ.circuit_cost(lex);
    let w = [want, kids.iter().map(|n| weight(h.get_optype(*n), salt + 1)).sum(), kids.iter().filter(|n| quantum(h.get_optype(**n))).count()];
    ensure!(got == LexicographicCost::from(w), "circuit_cost lexicographic", "{got:?} instead of {w:?}");
    let got: usize = circ.circuit_cost(|op| is_cx(op) as usize);
    let w = kids.iter().filter(|n| matches!(h.get_optype(**n), OpType::ExtensionOp(e) if e.qualified_id() == "tket.quantum.CX")).count();
    ensure!(got == w, "is_cx", "{got} CX counted instead of {w}");
    // some nodes
    let some: Vec<Node> = kids.iter().copied().filter(|_| c.src.flip()).collect();
    let got: usize = circ.nodes_cost(some.iter().copied(), |op| weight(op, salt));
    ensure!(got == some.iter().map(|n| weight(h.get_optype(*n), salt)).sum::<usize>(), "nodes_cost", "nodes_cost {got}");
    let rest: Vec<Node> = kids.iter().copied().filter(|n| !some.contains(n)).collect();
    let other: usize = circ.nodes_cost(rest, |op| weight(op, salt));
    ensure!(got + other == want, "nodes_cost: additive", "parts {got} + {other}, whole {want}");
    // number of operations, nested ones included
    let n_ops = no_panic("num_operations", || circ.num_operations())?;
    let w = h.descendants(h.module_root()).filter(|n| counted(&h, *n)).count();
    ensure!(n_ops == w, "num_operations", "num_operations {n_ops} instead of {w}");
    c.nontrivial = kids.len() >= 3 && want > 0;
    c.fingerprint(&show(&h));
    Ok(())
}
/// Operations on qubits (and the global phase) of the generic gate set, listed here independently.
fn quantum(op: &OpType) -> bool {
    let OpType::ExtensionOp(e) = op else { return false };
    e.extension_id().to_string() == "tket.quantum"
        && [
            "H", "CX", "CY", "CZ", "CRz", "T", "Tdg", "S", "Sdg", "X", "Y", "Z", "Rx", "Rz", "Ry", "Toffoli", "V", "Vdg", "Measure", "QAlloc", "QFree", "Reset", "MeasureFree", "TryQAlloc",
        ]
        .contains(&e.unqualified_id())
        && is_quantum_doc(e.unqualified_id())
}
fn is_quantum_doc(n: &str) -> bool {
    // TketOp::is_quantum: the unitary gates
    !["Measure", "QAlloc", "QFree", "Reset", "MeasureFree", "TryQAlloc"].contains(&n)
}

fn num(c: &mut Case) -> usize {
    match c.src.below(6) {
        0 => 0,
        1..=3 => c.src.below(5),
        4 => c.src.below(1000),
        _ => (c.src.draw(1 << 40)) as usize,
    }
}
fn laws_n<const N: usize>(c: &mut Case) -> Res {
    type L<const N: usize> = LexicographicCost<usize, N>;
    let mut v: Vec<[usize; N]> = vec![];
    for i in 0..3 {
        let mut a = [0; N];
        for (j, x) in a.iter_mut().enumerate() {
            *x = if i > 0 && c.src.chance(1, 3) { v[i - 1][j] } else { num(c) };
        }
        v.push(a);
    }
    let [a, b, d] = [v[0], v[1], v[2]];
    let [la, lb, ld]: [L<N>; 3] = [a.into(), b.into(), d.into()];
    c.describe(|| format!("{a:?} {b:?} {d:?}"));
    c.fingerprint(&(a.to_vec(), b.to_vec(), d.to_vec()));
    let zip = |x: &[usize; N], y: &[usize; N], f: &dyn Fn(usize, usize) -> usize| -> [usize; N] {
        let mut r = [0; N];
        for i in 0..N {
            r[i] = f(x[i], y[i]);
        }
        r
    };
    ensure!(la + lb == zip(&a, &b, &|x, y| x + y).into(), "add", "{la:?} + {lb:?} = {:?}", la + lb);
    ensure!((la + lb) + ld == la + (lb + ld) && la + lb == lb + la && la + L::<N>::default() == la, "add laws", "{la:?} {lb:?} {ld:?}");
    let mut e = la;
    e += lb;
    ensure!(e == la + lb, "add_assign", "{e:?}");
    ensure!([la, lb, ld].into_iter().sum::<L<N>>() == la + lb + ld && std::iter::empty::<L<N>>().sum::<L<N>>() == L::<N>::default(), "sum", "{la:?} {lb:?} {ld:?}");
    // the order is the lexicographic one
    ensure!(la.cmp(&lb) == a.cmp(&b) && la.partial_cmp(&lb) == Some(a.cmp(&b)) && (la == lb) == (a == b), "order", "{la:?} {lb:?} compare as {:?}", la.cmp(&lb));
    // differences
    let delta = la.sub_cost(&lb);
    ensure!(lb.add_delta(&delta) == la, "add_delta of sub_cost", "{lb:?} + ({la:?} - {lb:?}) = {:?}", lb.add_delta(&delta));
    ensure!(la.add_delta(&Default::default()) == la, "add_delta of zero", "{la:?}");
    let zero = la.sub_cost(&la);
    ensure!(zero == Default::default(), "sub_cost of itself", "{zero:?}");
    ensure!(delta.cmp(&zero) == la.cmp(&lb), "delta order", "{la:?} - {lb:?} = {delta:?} compares with zero as {:?}", delta.cmp(&zero));
    let d2 = ld.sub_cost(&lb);
    ensure!(delta.cmp(&d2) == la.cmp(&ld), "delta order", "{delta:?} and {d2:?}");
    ensure!(la.sub_cost(&ld) + ld.sub_cost(&lb) == delta, "deltas add up", "{la:?} {lb:?} {ld:?}");
    let mut de = la.sub_cost(&ld);
    de += ld.sub_cost(&lb);
    ensure!(de == delta, "deltas add up", "{la:?} {lb:?} {ld:?}");
    // a delta below zero saturates component-wise
    let neg = lb.sub_cost(&(lb + la));
    let sat = ld.add_delta(&neg);
    ensure!(sat == zip(&d, &a, &|x, y| x.saturating_sub(y)).into(), "saturation", "{ld:?} - {la:?} = {sat:?}");
    ensure!(la.as_usize() == a.first().copied().unwrap_or(0), "as_usize", "{la:?}");
    ensure!(delta.as_isize() == a.first().map(|x| *x as isize - b[0] as isize).unwrap_or(0), "as_isize", "{delta:?}");
    let n = 1 + c.src.below(9);
    let q = la.div_cost(NonZeroUsize::new(n).unwrap());
    ensure!(q == zip(&a, &a, &|x, _| x.div_ceil(n)).into(), "div_cost", "{la:?} / {n} = {q:?}");
    c.nontrivial = a != b && b != d;
    Ok(())
}
fn laws(c: &mut Case) -> Res {
    match c.src.below(4) {
        0 => laws_n::<1>(c)?,
        1 => laws_n::<2>(c)?,
        2 => laws_n::<3>(c)?,
        _ => {
            // plain numbers
            let (a, b, d) = (num(c), num(c), num(c));
            let delta = a.sub_cost(&b);
            ensure!(b.add_delta(&delta) == a && delta.as_isize() == a as isize - b as isize && CircuitCost::as_usize(&a) == a, "usize cost", "{a} {b}");
            ensure!(delta.cmp(&d.sub_cost(&b)) == a.cmp(&d), "usize cost: delta order", "{a} {b} {d}");
            ensure!(d.add_delta(&0usize.sub_cost(&a)) == d.saturating_sub(a), "usize cost: saturation", "{a} {d}");
            let n = 1 + c.src.below(9);
            let q = a.div_cost(NonZeroUsize::new(n).unwrap());
            ensure!(q == a.div_ceil(n), "usize cost: div_cost", "{a} / {n} = {q}");
            c.nontrivial = a != b;
            c.fingerprint(&(a, b, d, n));
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "sums: a region with at least three operations and a positive cost; laws: distinct costs",
        assumptions: &["constants get cost 0 (unused ones need not be commands)", "costs and differences are far from the integer limits"],
        suites: vec![Suite { name: "sums", quick: 300000, thorough: 10000000, run: sums }, Suite { name: "laws", quick: 2000000, thorough: 100000000, run: laws }],
        hang_violation: None,
    }
}
