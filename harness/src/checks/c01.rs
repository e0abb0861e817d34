//! C01: the command view of a circuit.
use super::common::*;
use super::selftest::full_cfg;
use crate::ensure;
use crate::hb::*;
use crate::prog::*;
use crate::run::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrInternals;
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::types::{EdgeKind, Type};
use hugr::{CircuitUnit, Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, Wire as HW};
use hugr::PortIndex;
use itertools::Itertools;
use std::collections::{BTreeSet, HashMap, HashSet};
use tket::Circuit;

pub fn dataflow_regions(h: &Hugr) -> Vec<Node> {
    h.descendants(h.module_root())
        .filter(|n| match h.get_optype(*n) {
            OpType::FuncDefn(f) => f.signature().params().is_empty(),
            OpType::DFG(_) | OpType::Case(_) | OpType::DataflowBlock(_) | OpType::TailLoop(_) => true,
            _ => false,
        })
        .collect()
}

fn linear(t: &Type) -> bool {
    !t.copyable()
}
/// (types, is static const at the end) of the ports of a node in a direction, from the signature alone
fn row_of(h: &Hugr, n: Node, dir: Direction) -> Vec<Type> {
    let op = h.get_optype(n);
    let mut v: Vec<Type> = match h.signature(n) {
        Some(s) => match dir {
            Direction::Incoming => s.input.iter().cloned().collect(),
            Direction::Outgoing => s.output.iter().cloned().collect(),
        },
        None => vec![],
    };
    if let Some(EdgeKind::Const(t)) = op.static_port_kind(dir) {
        v.push(t);
    }
    v
}

fn run(c: &mut Case) -> Res {
    let mut cfg = full_cfg();
    cfg.ins.push((t_arr(AK::Array, 2, t_q()), 1));
    cfg.ins.push((t_tup(vec![t_q(), t_b()]), 1));
    cfg.ins.push((t_fut(t_b()), 1));
    cfg.max_qubits = 9;
    cfg.max_measures = 9;
    cfg.out_copy = 4;
    let p = program(&mut c.src, &cfg);
    must_validate(&p.h, "generated program");
    // insertion order must not matter
    let (mut h, map) = if c.src.flip() { relabel(&p.h, &mut c.src, true) } else { (p.h.clone(), HashMap::new()) };
    let main = map.get(&p.main).copied().unwrap_or(p.main);
    let regions = dataflow_regions(&h);
    let entry = if c.src.chance(1, 3) { c.src.choose(&regions) } else { main };
    h.set_entrypoint(entry);
    if c.src.chance(1, 4) {
        let kids = h.children(entry).collect_vec();
        for _ in 0..3 {
            let n = c.src.choose(&kids);
            let k = c.src.below(3);
            h.set_metadata(n, format!("k{k}"), k as u64);
        }
    }
    c.describe(|| show(&h));
    label_feats(c, &p);
    let circ = no_panic("Circuit::new", || Circuit::try_new(&h))?;
    let circ = match circ {
        Ok(x) => x,
        Err(e) => return fail("Circuit::new: rejects", format!("{e}")),
    };
    let n_cmds = check(c, &h, entry, &circ)?;
    if c.src.chance(1, 6) {
        // copies are the same circuit
        let text = super::c04::canon(&h);
        for (what, copy) in [("to_owned", no_panic("to_owned", || circ.to_owned())?), ("extract_dfg", match no_panic("extract_dfg", || circ.extract_dfg())? {
            Ok(x) => x,
            Err(e) => return fail("extract_dfg: error", e.to_string()),
        })] {
            valid(copy.hugr(), what)?;
            let t = super::c04::canon(copy.hugr());
            ensure!(t == text, format!("{what}: another circuit"), "{t}");
            ensure!(copy.parent() == copy.hugr().entrypoint() && copy.circuit_signature() == circ.circuit_signature() && copy.name() == circ.name(), format!("{what}: container"), "{:?}", copy.name());
        }
        let kids: BTreeSet<Node> = h.children(entry).skip(2).collect();
        match no_panic("subgraph", || circ.subgraph())? {
            Ok(g) => {
                let got: BTreeSet<Node> = g.nodes().iter().copied().collect();
                ensure!(got.is_subset(&kids) && kids.difference(&got).all(|n| h.get_optype(*n).is_const()), "subgraph", "{got:?} {kids:?}");
            }
            Err(e) => c.label(format!("no subgraph: {}", kind_of(&format!("{e:?}")))),
        }
        ensure!(!circ.dot_string().is_empty() && !circ.mermaid_string().is_empty(), "drawing", "empty");
    }
    c.nontrivial = n_cmds >= 3;
    c.fingerprint(&show(&h));
    Ok(())
}

fn check(c: &mut Case, h: &Hugr, entry: Node, circ: &Circuit<&Hugr>) -> Res<usize> {
    let [inp, out] = h.get_io(entry).unwrap();
    ensure!(circ.parent() == entry && circ.io_nodes() == [inp, out] && circ.input_node() == inp && circ.output_node() == out, "io nodes", "wrong parent or io nodes");
    // ---- units of the circuit ----
    let in_row: Vec<Type> = h.signature(inp).unwrap().output.iter().cloned().collect();
    let sg = circ.circuit_signature();
    ensure!(sg.input.iter().cloned().collect_vec() == in_row, "signature", "circuit signature does not match its input node");
    ensure!(sg.output.iter().cloned().collect_vec() == h.signature(out).unwrap().input.iter().cloned().collect_vec(), "signature", "circuit signature does not match its output node");
    let units = no_panic("units", || circ.units().collect_vec())?;
    ensure!(units.len() == in_row.len(), "units: count", "{} units for {} inputs", units.len(), in_row.len());
    let mut lin = 0;
    for (i, (u, p, t)) in units.iter().enumerate() {
        let want = if linear(&in_row[i]) {
            lin += 1;
            CircuitUnit::Linear(lin - 1)
        } else {
            CircuitUnit::Wire(HW::new(inp, i))
        };
        ensure!(*u == want && p.index() == i && *t == in_row[i], "units: value", "unit {i} is {u:?} {p:?} {t}, expected {want:?}");
    }
    ensure!(circ.qubit_count() == in_row.iter().filter(|t| is_q(t)).count(), "qubit_count", "qubit_count {} for {:?}", circ.qubit_count(), in_row);
    ensure!(
        circ.qubits().map(|(u, p, _)| (CircuitUnit::Linear(u.index()), p)).collect_vec() == units.iter().filter(|x| is_q(&x.2)).map(|x| (x.0, x.1)).collect_vec(),
        "qubits",
        "qubits() is not the qubit part of units()"
    );
    ensure!(
        circ.linear_units().map(|(u, p, _)| (CircuitUnit::Linear(u.index()), p)).collect_vec() == units.iter().filter(|x| linear(&x.2)).map(|x| (x.0, x.1)).collect_vec(),
        "linear_units",
        "linear_units() is not the linear part of units()"
    );
    ensure!(
        circ.nonlinear_units().map(|(u, p, _)| (CircuitUnit::Wire(u), p)).collect_vec() == units.iter().filter(|x| !linear(&x.2)).map(|x| (x.0, x.1)).collect_vec(),
        "nonlinear_units",
        "nonlinear_units() is not the copyable part of units()"
    );
    // ---- commands ----
    let mut it = no_panic("commands", || circ.commands())?;
    let mut cmds = vec![];
    loop {
        let hint = it.size_hint();
        let x = no_panic("commands.next", || it.next())?;
        let Some(x) = x else { break };
        if c.src.chance(1, 8) {
            // a copy of the iterator goes on in the same way
            let rest = no_panic("commands.clone", || it.clone().collect_vec())?;
            let again = no_panic("commands", || circ.commands().skip(cmds.len()).collect_vec())?;
            ensure!(again.first() == Some(&x) && again[1..] == rest[..], "commands: another run", "{again:?} {x:?} {rest:?}");
        }
        cmds.push((hint, x));
        ensure!(cmds.len() <= h.num_nodes() + 5, "commands: endless", "more commands than nodes");
    }
    ensure!(it.next().is_none(), "commands: not fused", "iterator yields after its end");
    let total = cmds.len();
    for (i, (hint, _)) in cmds.iter().enumerate() {
        ensure!(hint.0 <= total - i && hint.1.is_none_or(|u| u >= total - i), "size_hint", "size hint {hint:?} with {} commands to come", total - i);
    }
    let order: HashMap<Node, usize> = cmds.iter().enumerate().map(|(i, (_, x))| (x.node(), i)).collect();
    ensure!(order.len() == total, "commands: repeated", "an operation is yielded twice: {:?}", cmds.iter().map(|x| x.1.node()).collect_vec());
    for k in h.children(entry) {
        let tag = h.get_optype(k).tag();
        let is_const = tag == OpTag::Const || tag == OpTag::LoadConst;
        let present = order.contains_key(&k);
        if k == inp || k == out {
            ensure!(!present, "commands: io", "an input or output node is yielded");
            continue;
        }
        if is_const {
            let used = uses(h, k, entry, inp, out);
            ensure!(present || !used, "commands: missing constant", "{k} {} is used but never yielded", h.get_optype(k));
        } else {
            ensure!(present, "commands: missing", "{k} {} is not yielded", h.get_optype(k));
        }
    }
    for (n, i) in &order {
        ensure!(h.get_parent(*n) == Some(entry), "commands: foreign", "{n} is not in the region");
        for s in h.input_neighbours(*n) {
            if h.get_parent(s) == Some(entry) && s != inp {
                match order.get(&s) {
                    Some(j) => ensure!(j < i, "commands: order", "{n} {} comes before {s} {}", h.get_optype(*n), h.get_optype(s)),
                    None => return fail("commands: order", format!("{n} comes without its predecessor {s}")),
                }
            }
        }
    }
    // ---- units along the way ----
    let mut live: HashMap<(Node, usize), usize> = units.iter().filter_map(|(u, p, _)| if let CircuitUnit::Linear(l) = u { Some(((inp, p.index()), *l)) } else { None }).collect();
    let mut made = 0;
    for (_, x) in &cmds {
        let n = x.node();
        ensure!(std::ptr::eq(x.optype(), h.get_optype(n)), "command: optype", "wrong optype");
        let what = format!("{n} {}", h.get_optype(n));
        let ir = row_of(h, n, Direction::Incoming);
        let or = row_of(h, n, Direction::Outgoing);
        let ins = no_panic("inputs", || x.inputs().collect_vec())?;
        let outs = no_panic("outputs", || x.outputs().collect_vec())?;
        ensure!(ins.len() == ir.len() && x.input_count() >= ir.len(), "command: inputs", "{what}: {} inputs (input_count {}), expected {}", ins.len(), x.input_count(), ir.len());
        ensure!(outs.len() == or.len() && x.output_count() >= or.len(), "command: outputs", "{what}: {} outputs (output_count {}), expected {}", outs.len(), x.output_count(), or.len());
        for (dir, got) in [(Direction::Incoming, x.input_count()), (Direction::Outgoing, x.output_count())] {
            let want = h.node_ports(n, dir).filter(|p| matches!(h.get_optype(n).port_kind(*p), Some(EdgeKind::Value(_) | EdgeKind::Const(_) | EdgeKind::Function(_)))).count();
            ensure!(got == want, "command: input_count or output_count", "{what}: {dir:?} {got} instead of {want}");
        }
        for (k, v) in h.node_metadata_map(n) {
            ensure!(x.metadata(k) == Some(v), "command: metadata", "{what}: {k}");
        }
        ensure!(x.metadata("no such key").is_none(), "command: metadata", "{what}: unknown key");
        let mut left = x.inputs();
        for i in 0..=ins.len() {
            let hint = left.size_hint();

            ensure!(hint.0 <= ins.len() - i && hint.1.is_none_or(|u| u >= ins.len() - i), "command: size hint of the inputs", "{what}: {hint:?} with {} to come", ins.len() - i);
            left.next();
        }
        let mut left = x.outputs();
        for i in 0..=outs.len() {
            let hint = left.size_hint();

            ensure!(hint.0 <= outs.len() - i && hint.1.is_none_or(|u| u >= outs.len() - i), "command: size hint of the outputs", "{what}: {hint:?} with {} to come", outs.len() - i);
            left.next();
        }
        let mut lin_in = vec![];
        let mut consumed = vec![];
        for (i, (u, p, t)) in ins.iter().enumerate() {
            ensure!(p.index() == i && *t == ir[i], "command: input port", "{what}: input {i} is {p:?} {t}");
            let src = h.single_linked_output(n, IncomingPort::from(i)).unwrap();
            let is_lin = linear(&ir[i]);
            ensure!(x.is_linear_port(Port::new(Direction::Incoming, i)) == is_lin, "command: is_linear_port", "{what} input {i}");
            if is_lin {
                let want = live.get(&(src.0, src.1.index())).copied();
                ensure!(want.is_some() && *u == CircuitUnit::Linear(want.unwrap()), "command: input unit", "{what}: input {i} has unit {u:?}, its wire carries {want:?}");
                consumed.push((src.0, src.1.index()));
                lin_in.push(want.unwrap());
            } else {
                ensure!(*u == CircuitUnit::Wire(HW::new(src.0, src.1)), "command: input wire", "{what}: input {i} has unit {u:?}, its wire comes from {src:?}");
            }
        }
        for w in consumed {
            live.remove(&w);
        }
        let mut k = 0;
        for (i, (u, p, t)) in outs.iter().enumerate() {
            ensure!(p.index() == i && *t == or[i], "command: output port", "{what}: output {i} is {p:?} {t}");
            let is_lin = linear(&or[i]);
            ensure!(x.is_linear_port(Port::new(Direction::Outgoing, i)) == is_lin, "command: is_linear_port", "{what} output {i}");
            if is_lin {
                let CircuitUnit::Linear(l) = *u else { return fail("command: output unit", format!("{what}: linear output {i} has unit {u:?}")) };
                if k < lin_in.len() {
                    ensure!(l == lin_in[k], "command: output unit", "{what}: output {i} has unit {l}, the matching input has {}", lin_in[k]);
                } else {
                    made += 1;
                }
                ensure!(!live.values().any(|v| *v == l), "command: unit shared", "{what}: output {i} gets unit {l}, which another live value has");
                live.insert((n, i), l);
                k += 1;
            } else {
                ensure!(*u == CircuitUnit::Wire(HW::new(n, i)), "command: output wire", "{what}: output {i} has unit {u:?}");
            }
        }
        // the derived views
        let iw = x.input_wires().into_iter().collect_vec();
        ensure!(iw.len() == ins.len() && iw.iter().enumerate().all(|(i, (u, w))| *u == ins[i].0 && { let s = h.single_linked_output(n, IncomingPort::from(i)).unwrap(); *w == HW::new(s.0, s.1) }), "command: input_wires", "{what}: {iw:?}");
        let ow = x.output_wires().collect_vec();
        ensure!(ow.len() == outs.len() && ow.iter().enumerate().all(|(i, (u, w))| *u == outs[i].0 && *w == HW::new(n, i)), "command: output_wires", "{what}: {ow:?}");
        for dir in Direction::BOTH {
            let all: Vec<(CircuitUnit, Port, Type)> = match dir {
                Direction::Incoming => ins.iter().map(|(u, p, t)| (*u, (*p).into(), t.clone())).collect(),
                Direction::Outgoing => outs.iter().map(|(u, p, t)| (*u, (*p).into(), t.clone())).collect(),
            };
            ensure!(x.units(dir).collect_vec() == all, "command: units", "{what}");
            let l: Vec<(usize, Port)> = all.iter().filter_map(|(u, p, _)| if let CircuitUnit::Linear(l) = u { Some((*l, *p)) } else { None }).collect();
            ensure!(x.linear_units(dir).map(|(u, p, _)| (u.index(), p)).collect_vec() == l, "command: linear_units", "{what}");
            for (u, p, _) in x.linear_units(dir) {
                ensure!(x.linear_unit_port(u, dir) == Some(p), "command: linear_unit_port", "{what}: {u:?}");
            }
            ensure!(x.linear_unit_port(tket::circuit::units::LinearUnit::new(usize::MAX), dir).is_none(), "command: linear_unit_port", "{what}: unknown unit found");
            let q: Vec<(usize, Port)> = all.iter().filter_map(|(u, p, t)| if let (CircuitUnit::Linear(l), true) = (u, is_q(t)) { Some((*l, *p)) } else { None }).collect();
            let got: Vec<(usize, Port)> = match dir {
                Direction::Incoming => x.input_qubits().map(|(u, p, _)| (u.index(), p.into())).collect(),
                Direction::Outgoing => x.output_qubits().map(|(u, p, _)| (u.index(), p.into())).collect(),
            };
            ensure!(got == q, "command: qubits", "{what}: {got:?} vs {q:?}");
        }
    }
    // every unit still alive ends at the output
    for p in h.node_inputs(out) {
        if h.get_optype(out).port_kind(p).is_some_and(|k| k.is_linear()) {
            let s = h.single_linked_output(out, p).unwrap();
            ensure!(live.contains_key(&(s.0, s.1.index())), "commands: unit lost", "linear output {p:?} comes from a wire without unit");
        }
    }
    // operations() is the filtered view
    let ops: Vec<Node> = circ.operations().map(|x| x.node()).collect();
    let want: Vec<Node> = cmds.iter().map(|x| x.1.node()).filter(|n| counted(h, *n)).collect();
    ensure!(ops == want, "operations", "operations() gives {ops:?}, expected {want:?}");
    if made > 0 {
        c.label("unit created");
    }
    let _ = (BTreeSet::<usize>::new(), HashSet::<usize>::new(), OutgoingPort::from(0));
    Ok(total)
}
/// Extension operations other than no-ops and tuple packing count as operations.
pub fn counted(h: &Hugr, n: Node) -> bool {
    match h.get_optype(n) {
        OpType::ExtensionOp(e) => !["prelude.Noop", "prelude.MakeTuple", "prelude.UnpackTuple"].contains(&e.qualified_id().as_str()),
        OpType::OpaqueOp(_) => true,
        _ => false,
    }
}
/// Whether a constant or load is needed by a real operation or the output
fn uses(h: &Hugr, n: Node, entry: Node, inp: Node, out: Node) -> bool {
    let _ = inp;
    h.output_neighbours(n).any(|m| {
        h.get_parent(m) == Some(entry) && {
            let tag = h.get_optype(m).tag();
            if tag == OpTag::LoadConst || tag == OpTag::Const {
                uses(h, m, entry, inp, out)
            } else {
                true
            }
        }
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "the region iterated has at least 3 commands",
        assumptions: &["constants that nothing in the region uses may be left out of the command list"],
        suites: vec![Suite { name: "commands", quick: 150000, thorough: 6000000, run }],
        hang_violation: None,
    }
}
