//! C07: parts of a program written as pytket circuits, and put back.
use super::c06::{check_form, enc_opts, short, sims};
use super::common::*;
use crate::ensure;
use crate::prog::*;
use crate::run::*;
use crate::gen::*;
use crate::hb::*;
use hugr::ops::OpTrait;
use hugr::HugrView;
use serde_json::json;
use std::sync::Arc;
use tket::serialize::pytket::EncodedCircuit;
use tket::Circuit;
use tket_json_rs::circuit_json::{Command, SerialCircuit};
use K::*;

fn cfg(qsys: bool) -> Cfg {
    let mut k = Cfg::new(&[(G1, 6), (GRot, 4), (G2, 6), (CRz, 1), (G3, 1)]).with(&[
        (Alloc, 2), (K::Free, 1), (Reset, 1), (Meas, 3), (MeasFree, 2), (Rot, 3), (Flt, 3), (Log, 3), (TB, 3), (Int, 3), (Conv, 2), (Tup, 3), (Untup, 3), (TagOp, 2), (UnwrapSum, 1), (Noop, 1), (Dfg, 4), (Cond, 4), (Loop, 2),
        (CfgN, 3), (Call, 3), (CallInd, 1), (Arr, 2), (ArrOp, 2), (ResOp, 3), (Const, 3), (Barrier, 2), (Order, 2), (TryAlloc, 1), (SArr, 1), (Unknown, 2), (Phase, 1),
    ]);
    if qsys {
        k = k.with(&[(QRz, 2), (QPx, 2), (QZz, 2), (QMeas, 1), (QReset, 1), (QFree, 1), (Lazy, 2), (Fut, 3), (QMeasReset, 1), (RtBarrier, 1)]);
    }
    k.ops = (1, 14);
    k.funcs = 2;
    k.const_away = true;
    k.computed_angles = true;
    k.symbols = true;
    k.max_qubits = 5;
    k.max_measures = 4;
    k.out_copy = 3;
    k.ins.push((t_i(6), 1));
    k.ins.push((t_tb(), 1));
    k.ins.push((t_b(), 1));
    k
}

fn command(t: &str, args: &[&tket_json_rs::register::ElementId]) -> Command {
    serde_json::from_value(json!({"op": {"type": t}, "args": args})).unwrap()
}
fn is_plain(k: &Command) -> bool {
    ["H", "X", "Y", "Z", "S", "T", "Sdg", "Tdg", "V", "Vdg", "CX", "CY", "CZ", "CCX", "Rx", "Ry", "Rz", "CRz", "PhasedX", "ZZPhase"].contains(&json!(k.op)["type"].as_str().unwrap())
}
/// Writes the circuit in another way.
fn rewrite(s: &mut Src, sc: &mut SerialCircuit) -> Vec<&'static str> {
    let mut done = vec![];
    for _ in 0..s.below(4) {
        if sc.commands.is_empty() {
            break;
        }
        let i = s.below(sc.commands.len());
        let k = sc.commands[i].clone();
        match s.below(3) {
            0 if is_plain(&k) => {
                let at = i + s.below(2);
                let new = if k.args.len() >= 2 && s.flip() {
                    let g = s.choose(&["CX", "CZ", "CY"]);
                    command(g, &[&k.args[1], &k.args[0]])
                } else {
                    let g = s.choose(&["H", "X", "Y", "Z"]);
                    let j = s.below(k.args.len());
                    command(g, &[&k.args[j]])
                };
                sc.commands.insert(at, new.clone());
                sc.commands.insert(at, new);
                done.push("pair inserted");
            }
            1 => {
                let a = |j: usize| &k.args[j];
                let new = match json!(k.op)["type"].as_str().unwrap() {
                    "CX" => vec![command("H", &[a(1)]), command("CZ", &[a(0), a(1)]), command("H", &[a(1)])],
                    "CZ" => vec![command("H", &[a(0)]), command("CX", &[a(1), a(0)]), command("H", &[a(0)])],
                    "Z" => vec![command("S", &[a(0)]), command("S", &[a(0)])],
                    "X" => vec![command("H", &[a(0)]), command("Z", &[a(0)]), command("H", &[a(0)])],
                    "S" => vec![command("T", &[a(0)]), command("T", &[a(0)])],
                    _ => continue,
                };
                sc.commands.splice(i..i + 1, new);
                done.push("gate replaced");
            }
            2 if i + 1 < sc.commands.len() => {
                let n = &sc.commands[i + 1];
                if k.args.iter().all(|a| !n.args.contains(a)) && (is_plain(&k) || is_plain(n)) {
                    sc.commands.swap(i, i + 1);
                    done.push("commands swapped");
                }
            }
            _ => {}
        }
    }
    if s.flip() {
        let text = serde_json::to_string(sc).unwrap();
        *sc = serde_json::from_str(&text).unwrap();
    }
    done
}

fn programs(c: &mut Case) -> Res {
    let qsys = c.src.flip();
    let p = program(&mut c.src, &cfg(qsys));
    must_validate(&p.h, "generated program");
    label_feats(c, &p);
    let subs = c.src.flip();
    c.describe(|| format!("qsys {qsys} subcircuits {subs}\n{}", show(&p.h)));
    c.fingerprint(&(show(&p.h), qsys, subs));
    let o = sims();
    let want = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let mut h = p.h.clone();
    hugr::hugr::hugrmut::HugrMut::set_entrypoint(&mut h, p.main);
    let circ = Circuit::try_new(h).unwrap();
    let mut enc = match no_panic("encode", || EncodedCircuit::new(&circ, enc_opts(qsys).with_subcircuits(subs)))? {
        Ok(x) => x,
        // Documented: angles computed by operations without qubits or bits cannot be used by gates.
        Err(e) if e.to_string().contains("has no qubits or bits") && angle_only(circ.hugr()) => return Err(Stop::Discard("angles computed by operations without registers")),
        Err(e) => return fail(format!("encode: error {}", short(&e.to_string())), e.to_string()),
    };
    let mut nodes: Vec<_> = enc.iter().map(|x| x.0).collect();
    nodes.sort();
    ensure!(nodes.contains(&p.main), "no circuit", "{nodes:?}");
    let mut edits = vec![];
    for n in &nodes {
        check_form(&enc[*n])?;
        edits.extend(rewrite(&mut c.src, &mut enc[*n]));
    }
    c.nontrivial = nodes.iter().any(|n| !enc[*n].commands.is_empty());
    for e in &edits {
        c.label(*e);
    }
    if nodes.len() > 1 {
        c.label("several circuits");
    }
    let text = || nodes.iter().map(|n| format!("{n}: {}", serde_json::to_string(&enc[*n]).unwrap())).collect::<Vec<_>>().join("\n");
    let add = |e: Stop| match e {
        Stop::Fail { sig, detail } => Stop::Fail { sig, detail: format!("{detail}\n{}", text()) },
        e => e,
    };
    let mut h = circ.into_hugr();
    let before = signatures(&h, p.main);
    let conf = Arc::new(if qsys { tket_qsystem::pytket::qsystem_decoder_config() } else { tket::serialize::pytket::default_decoder_config() });
    let got = match no_panic("reassemble", || enc.reassemble_inplace(&mut h, Some(conf))).map_err(add)? {
        Ok(x) => x,
        Err(e) => return fail(format!("reassemble: error {}", short(&e.to_string())), e.to_string()).map_err(add),
    };
    let mut got2 = got.clone();
    got2.sort();
    ensure!(got2 == nodes, "regions", "{got:?} instead of {nodes:?}");
    valid(&h, "reassemble").map_err(add)?;
    let after = signatures(&h, p.main);
    ensure!(before == after, "signatures", "{before:?}\nbecome {after:?}\n{}", text());
    ensure!(h.entrypoint() == p.main, "entrypoint", "{}", h.entrypoint());
    same_meaning("reassemble", &want, &h, p.main, &p.ins, &p.outs, &o).map_err(add)
}
/// Whether some operation computes angles: there may be no qubits or bits to attach it to.
fn angle_only(h: &hugr::Hugr) -> bool {
    let angle = |t: &hugr::types::Type| *t == t_f() || *t == t_r();
    h.nodes().any(|n| {
        let op = h.get_optype(n);
        if op.is_load_constant() || op.is_input() || op.is_output() {
            return false;
        }
        op.dataflow_signature().is_some_and(|s| s.output().iter().any(angle))
    })
}
/// Functions of the module, with their signatures.
fn signatures(h: &hugr::Hugr, main: hugr::Node) -> Vec<(hugr::Node, String)> {
    let mut v: Vec<_> = h
        .children(h.module_root())
        .filter_map(|n| match h.get_optype(n) {
            hugr::ops::OpType::FuncDefn(f) => Some((n, format!("{} {} {:?} {}", f.func_name(), f.signature(), f.visibility(), n == main))),
            hugr::ops::OpType::FuncDecl(f) => Some((n, format!("{} {}", f.func_name(), f.signature()))),
            _ => None,
        })
        .collect();
    v.sort();
    v
}
pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "a circuit with a command",
        assumptions: &["up to 5 qubits", "gates nobody knows are generic unitaries depending on their text, operands and angles"],
        suites: vec![Suite { name: "programs", quick: 60000, thorough: 2000000, run: programs }],
        hang_violation: None,
    }
}
