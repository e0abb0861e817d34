//! C24: lowering to the native gate set; C26: runtime barriers.
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::run::*;
use hugr::algorithms::ComposablePass;
use hugr::builder::{inout_sig, DFGBuilder, Dataflow, DataflowHugr};
use hugr::ops::OpType;
use hugr::types::Type;
use hugr::{Hugr, HugrView, Node};
use tket_qsystem::extension::qsystem::{check_lowered, lower_tk2_op, LowerTketToQSystemPass, QSystemOpBuilder};
use K::*;

pub fn ext_of(h: &Hugr, n: Node) -> Option<(String, String)> {
    match h.get_optype(n) {
        OpType::ExtensionOp(e) => Some((e.def().extension_id().to_string(), e.def().name().to_string())),
        OpType::OpaqueOp(e) => Some((e.extension().to_string(), e.unqualified_id().to_string())),
        _ => None,
    }
}
fn generic(h: &Hugr, n: Node) -> bool {
    ext_of(h, n).is_some_and(|e| e.0 == "tket.quantum")
}
fn barrier(h: &Hugr, n: Node) -> bool {
    ext_of(h, n).is_some_and(|e| e.0 == "prelude" && e.1 == "Barrier")
}

fn lower(c: &mut Case, p: &Program, o: &SimOpts) -> Res<Hugr> {
    let before = sim_before(&p.h, p.main, &p.ins, &p.outs, o)?;
    let mut h = p.h.clone();
    let mut todo: Vec<Node> = h.nodes().filter(|n| generic(&h, *n) || barrier(&h, *n)).collect();
    let gates = todo.iter().filter(|n| generic(&h, **n)).count();
    if c.src.flip() {
        match no_panic("lower_tk2_op", || lower_tk2_op(&mut h))? {
            Ok(mut ns) => {
                ns.sort();
                todo.sort();
                ensure!(ns == todo, "lower: nodes reported", "reported {ns:?}, the program had {todo:?}");
            }
            Err(e) => return fail("lower: error", e.to_string()),
        }
    } else {
        match no_panic("LowerTketToQSystemPass", || LowerTketToQSystemPass.run(&mut h))? {
            Ok(()) => {}
            Err(e) => return fail("lower: error", e.to_string()),
        }
    }
    valid(&h, "lower")?;
    let left: Vec<Node> = h.nodes().filter(|n| generic(&h, *n)).collect();
    ensure!(left.is_empty(), "lower: generic gates left", "{left:?}\n{}", show(&h));
    ensure!(check_lowered(&h).is_ok(), "lower: check_lowered", "reports {:?}", check_lowered(&h));
    ensure!(h.entrypoint() == p.main && h.signature(p.main) == p.h.signature(p.main), "lower: entry point", "entry point or its signature changed");
    ensure!(super::c12::public(&p.h).iter().all(|(k, v)| super::c12::public(&h).get(k) == Some(v)), "lower: interface", "public functions changed");
    let mut o2 = o.clone();
    o2.barriers *= 2;
    same_meaning("lower", &before, &h, p.main, &p.ins, &p.outs, &o2)?;
    c.nontrivial = gates > 0;
    c.fingerprint(&show(&p.h));
    Ok(h)
}
fn go(c: &mut Case, k: &Cfg) -> Res {
    let p = program(&mut c.src, k);
    must_validate(&p.h, "generated program");
    c.describe(|| show(&p.h));
    label_feats(c, &p);
    lower(c, &p, &SimOpts::default()).map(|_| ())
}
const GATES: &[(K, usize)] = &[(G1, 8), (GRot, 8), (G2, 8), (CRz, 4), (G3, 3), (Alloc, 2), (TryAlloc, 2), (K::Free, 2), (Reset, 2), (Meas, 3), (MeasFree, 2)];
/// Straight-line gates with every kind of angle.
fn gates(c: &mut Case) -> Res {
    let mut k = Cfg::new(GATES).with(&[(Flt, 2), (Rot, 4)]);
    k.ops = (1, 14);
    k.computed_angles = true;
    k.max_qubits = 4;
    go(c, &k)
}
/// Gates everywhere a program can have them.
fn programs(c: &mut Case) -> Res {
    let mut k = Cfg::new(GATES).with(&[
        (QRz, 2), (QPx, 2), (QZz, 2), (QMeas, 1), (QMeasReset, 1), (QReset, 1), (QFree, 1), (Lazy, 1), (Fut, 2), (Rot, 2), (Flt, 2), (Log, 2), (TB, 2), (Tup, 2), (Untup, 2), (Noop, 1), (K::Barrier, 2), (Dfg, 3), (Cond, 3), (Loop, 2),
        (CfgN, 2), (Call, 3), (Arr, 2), (ArrOp, 1), (ResOp, 1), (Order, 2), (UnwrapSum, 1), (Const, 1),
    ]);
    k.ops = (1, 12);
    k.funcs = 2;
    k.const_away = true;
    k.computed_angles = true;
    k.max_qubits = 4;
    k.max_measures = 4;
    k.ins.push((t_tb(), 1));
    go(c, &k)
}
/// The builder functions of the native decompositions, alone.
fn builders(c: &mut Case) -> Res {
    use crate::qstate as qs;
    let names = ["h", "x", "y", "z", "s", "sdg", "v", "vdg", "t", "tdg", "cx", "cy", "cz", "zz_max", "toffoli", "rx", "ry", "crz"];
    let nm = c.src.choose(&names);
    let nq = match nm {
        "cx" | "cy" | "cz" | "zz_max" => 2,
        "toffoli" => 3,
        "crz" => 2,
        _ => 1,
    };
    let a = c.src.float() * std::f64::consts::PI;
    let perm: Vec<usize> = {
        let mut v: Vec<usize> = (0..nq).collect();
        c.src.shuffle(&mut v);
        v
    };
    c.describe(|| format!("build_{nm} on qubits {perm:?}, angle {a}"));
    c.label(nm);
    let outs: Vec<Type> = (0..nq).map(|_| t_q()).collect();
    let h = no_panic("builder", || {
        let mut b = DFGBuilder::new(inout_sig(outs.clone(), outs.clone())).unwrap();
        let mut w: Vec<_> = b.input_wires().collect();
        let q: Vec<_> = perm.iter().map(|i| w[*i]).collect();
        let ang = b.add_load_value(hugr::std_extensions::arithmetic::float_types::ConstF64::new(a));
        let o: Vec<_> = match nm {
            "h" => vec![b.build_h(q[0]).unwrap()],
            "x" => vec![b.build_x(q[0]).unwrap()],
            "y" => vec![b.build_y(q[0]).unwrap()],
            "z" => vec![b.build_z(q[0]).unwrap()],
            "s" => vec![b.build_s(q[0]).unwrap()],
            "sdg" => vec![b.build_sdg(q[0]).unwrap()],
            "v" => vec![b.build_v(q[0]).unwrap()],
            "vdg" => vec![b.build_vdg(q[0]).unwrap()],
            "t" => vec![b.build_t(q[0]).unwrap()],
            "tdg" => vec![b.build_tdg(q[0]).unwrap()],
            "cx" => b.build_cx(q[0], q[1]).unwrap().into(),
            "cy" => b.build_cy(q[0], q[1]).unwrap().into(),
            "cz" => b.build_cz(q[0], q[1]).unwrap().into(),
            "zz_max" => b.build_zz_max(q[0], q[1]).unwrap().into(),
            "toffoli" => b.build_toffoli(q[0], q[1], q[2]).unwrap().into(),
            "rx" => vec![b.build_rx(q[0], ang).unwrap()],
            "ry" => vec![b.build_ry(q[0], ang).unwrap()],
            _ => b.build_crz(q[0], q[1], ang).unwrap().into(),
        };
        for (i, x) in perm.iter().zip(o) {
            w[*i] = x;
        }
        b.finish_hugr_with_outputs(w).unwrap()
    })?;
    valid(&h, "builder")?;
    let got = sim_before(&h, h.entrypoint(), &outs, &outs, &SimOpts::default())?;
    use std::f64::consts::PI;
    let m = match nm {
        "h" => qs::h(),
        "x" => qs::x(),
        "y" => qs::y(),
        "z" => qs::z(),
        "s" => qs::u1(PI / 2.0),
        "sdg" => qs::u1(-PI / 2.0),
        "v" => qs::rx(PI / 2.0),
        "vdg" => qs::rx(-PI / 2.0),
        "t" => qs::u1(PI / 4.0),
        "tdg" => qs::u1(-PI / 4.0),
        "cx" => qs::x().controlled(),
        "cy" => qs::y().controlled(),
        "cz" => qs::z().controlled(),
        "zz_max" => qs::zz(PI / 2.0),
        "toffoli" => qs::x().controlled().controlled(),
        "rx" => qs::rx(a),
        "ry" => qs::ry(a),
        _ => qs::rz(a).controlled(),
    };
    let ids: Vec<usize> = (0..nq).collect();
    let mut st = qs::State::generic(&ids, 1);
    st.apply(&m, &perm, &[]).unwrap();
    let want = st.reorder(&ids).unwrap();
    let g: Vec<_> = got.obs.values().flatten().collect();
    ensure!(g.len() == 1 && qs::inner(g[0], &want).n2() > 1.0 - 1e-9, "builder: wrong unitary", "build_{nm} on {perm:?} with angle {a}");
    c.nontrivial = true;
    c.fingerprint(&format!("{nm}{perm:?}{a}"));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "the program has at least one generic gate",
        assumptions: &[],
        suites: vec![Suite { name: "gates", quick: 20000, thorough: 1500000, run: gates }, Suite { name: "programs", quick: 20000, thorough: 1500000, run: programs }, Suite { name: "builders", quick: 10000, thorough: 500000, run: builders }],
        hang_violation: None,
    }
}

/// Barriers over every kind of container; allocation-free, so that qubits keep their names.
fn barriers(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(G1, 3), (G2, 3), (K::Barrier, 14), (Dfg, 2), (Cond, 2), (Loop, 1), (Call, 2), (Tup, 5), (Untup, 3), (TagOp, 2), (UnwrapSum, 1), (Arr, 3), (ArrOp, 1), (Order, 2), (ResOp, 1)]);
    k.ops = (1, 10);
    k.funcs = 1;
    k.max_qubits = 6;
    k.ins = vec![
        (t_q(), 6),
        (t_b(), 1),
        (t_arr(AK::Array, 2, t_q()), 2),
        (t_arr(AK::Array, 1, t_arr(AK::Array, 2, t_q())), 1),
        (t_arr(AK::Borrow, 2, t_q()), 2),
        (t_arr(AK::Value, 2, t_q()), 1),
        (t_arr(AK::Array, 2, t_tup(vec![t_b(), t_q()])), 1),
        (t_arr(AK::Borrow, 2, t_tup(vec![t_q(), t_f()])), 1),
        (t_arr(AK::Array, 2, t_b()), 1),
        (t_tup(vec![t_q(), t_b()]), 1),
        (t_tup(vec![t_q(), t_arr(AK::Array, 2, t_q()), t_f()]), 1),
        (t_tup(vec![t_tup(vec![t_q(), t_b()]), t_q()]), 1),
        (t_opt(vec![t_q()]), 1),
        (t_arr(AK::Array, 2, t_opt(vec![t_q()])), 1),
        (t_arr(AK::Borrow, 1, t_opt(vec![t_q()])), 1),
        (t_tup(vec![]), 1),
    ];
    k.n_ins = (1, 4);
    k.arr_kinds = vec![AK::Array, AK::Borrow, AK::Value];
    // zero-length and empty cases
    if c.src.chance(1, 6) {
        k.ins.push((t_arr(AK::Array, 0, t_q()), 3));
        k.ins.push((t_arr(AK::Array, 2, t_arr(AK::Array, 0, t_q())), 2));
        k.ins.push((t_arr(AK::Borrow, 0, t_q()), 2));
    }
    let p = program(&mut c.src, &k);
    must_validate(&p.h, "generated program");
    c.describe(|| show(&p.h));
    label_feats(c, &p);
    let n = p.h.nodes().filter(|n| barrier(&p.h, *n)).count();
    let o = SimOpts { barriers: 1, ..Default::default() };
    lower(c, &p, &o)?;
    c.nontrivial = n > 0;
    Ok(())
}
pub fn prop26() -> Prop {
    Prop {
        id: "C26",
        rule: "the program has at least one barrier",
        assumptions: &[],
        suites: vec![Suite { name: "barriers", quick: 40000, thorough: 2000000, run: barriers }],
        hang_violation: None,
    }
}
