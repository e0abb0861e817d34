//! C02: the structural circuit hash.
use super::c01::dataflow_regions;
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::prog::*;
use crate::run::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{DataflowOpTrait, OpTrait, OpType};
use hugr::types::Type;
use hugr::{Hugr, HugrView, IncomingPort, Node, PortIndex};
use hugr_core::hugr::internal::HugrMutInternals;
use std::collections::HashMap;
use tket::circuit::CircuitHash;
use tket::Circuit;
use K::*;

fn cfg() -> Cfg {
    let mut c = Cfg::new(PURE_GATES).with(&[
        (Alloc, 2), (K::Free, 1), (Meas, 2), (MeasFree, 1), (Rot, 2), (Flt, 3), (Log, 2), (TB, 2), (Int, 3), (Conv, 1), (Tup, 2), (Untup, 2), (TagOp, 3), (Noop, 1), (Barrier, 1), (Dfg, 3),
        (Call, 3), (CallInd, 1), (Arr, 2), (ResOp, 1), (Unknown, 2), (Order, 2), (Const, 3), (QRz, 1), (QPx, 1), (Loop, 1), (Cond, 1), (Lazy, 1),
    ]);
    c.funcs = 3;
    c.ops = (1, 14);
    c.const_away = true;
    c.computed_angles = true;
    c.max_qubits = 7;
    c.max_measures = 12;
    c.out_copy = 4;
    c.ins.push((t_i(6), 1));
    c
}

/// The graph seen from the output, as hash-consed terms.
#[derive(Default)]
struct Canon {
    table: HashMap<String, usize>,
}
impl Canon {
    fn intern(&mut self, k: String) -> usize {
        let n = self.table.len();
        *self.table.entry(k).or_insert(n)
    }
    fn op(h: &Hugr, n: Node) -> String {
        match h.get_optype(n) {
            OpType::ExtensionOp(e) => format!("{}<{:?}>{:?}", e.qualified_id(), e.args(), e.dataflow_signature()),
            OpType::FuncDefn(f) => format!("fn {} {:?}", f.func_name(), f.signature()),
            OpType::FuncDecl(f) => format!("decl {} {:?}", f.func_name(), f.signature()),
            // how many inputs or which types the region has without using them cannot be seen from the output
            OpType::Input(_) => "Input".into(),
            OpType::Output(_) => "Output".into(),
            o => format!("{o:?}"),
        }
    }
    /// None when the region cannot be hashed (regions without dataflow I/O inside, or values from outer regions).
    fn region(&mut self, h: &Hugr, parent: Node) -> Option<usize> {
        let [_, out] = h.get_io(parent)?;
        let mut memo = HashMap::new();
        if unhashable(h, parent) {
            return None;
        }
        self.node(h, parent, out, &mut memo)
    }
    fn node(&mut self, h: &Hugr, parent: Node, n: Node, memo: &mut HashMap<Node, usize>) -> Option<usize> {
        if let Some(x) = memo.get(&n) {
            return Some(*x);
        }
        let mut key = Self::op(h, n);
        if h.children(n).next().is_some() {
            key += &format!("{{{}}}", self.region(h, n)?);
        }
        for p in h.node_inputs(n) {
            let mut preds: HashMap<(usize, usize), usize> = HashMap::new();
            for (s, sp) in h.linked_outputs(n, p) {
                let id = if h.get_parent(s) == Some(parent) {
                    self.node(h, parent, s, memo)?
                } else if matches!(h.get_optype(s), OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_)) {
                    self.intern(Self::op(h, s))
                } else {
                    return None;
                };
                *preds.entry((id, sp.index())).or_default() += 1;
            }
            // two state-order predecessors that are the same term cancel out
            let mut v: Vec<_> = preds.into_iter().filter(|x| x.1 % 2 == 1).map(|x| x.0).collect();
            v.sort();
            key += &format!("|{}:{v:?}", p.index());
        }
        let id = self.intern(key);
        memo.insert(n, id);
        Some(id)
    }
}

/// Regions that cannot be hashed make everything around them fail.
fn unhashable(h: &Hugr, parent: Node) -> bool {
    h.children(parent).any(|k| h.children(k).next().is_some() && (h.get_io(k).is_none() || unhashable(h, k)))
}

fn hash_of(h: &Hugr, n: Node) -> Res<Option<u64>> {
    let r = no_panic("circuit_hash", || h.circuit_hash(n))?;
    Ok(r.ok())
}

/// insertion order, numbering, storage
fn same(c: &mut Case) -> Res {
    let p = program(&mut c.src, &cfg());
    must_validate(&p.h, "generated program");
    label_feats(c, &p);
    c.describe(|| show(&p.h));
    let (h2, map) = relabel(&p.h, &mut c.src, true);
    let mut hashed = 0;
    for n in dataflow_regions(&p.h) {
        let a = hash_of(&p.h, n)?;
        let b = hash_of(&h2, map[&n])?;
        ensure!(a == b, "relabelled", "hash {a:?} of {n} becomes {b:?} when the nodes are inserted in another order");
        hashed += a.is_some() as usize;
        let mut canon = Canon::default();
        if canon.region(&p.h, n).is_some() {
            ensure!(a.is_some(), "not hashed", "the region {n} has no hash: {:?}", p.h.circuit_hash(n));
        }
    }
    // the Circuit wrapper and another view give the same
    let a = hash_of(&p.h, p.main)?;
    let circ = Circuit::new(p.h.clone());
    ensure!(circ.circuit_hash(p.main).ok() == a, "wrapper", "Circuit and Hugr disagree");
    // storing
    if c.src.chance(1, 4) {
        let mut buf = vec![];
        p.h.store(&mut buf, hugr::envelope::EnvelopeConfig::binary()).map_err(|e| Stop::Fail { sig: "store".into(), detail: e.to_string() })?;
        match Hugr::load(&buf[..], Some(&REG)) {
            Ok(h3) => {
                let b = hash_of(&h3, h3.entrypoint())?;
                ensure!(a == b, "stored", "hash {a:?} becomes {b:?} after storing and loading");
            }
            Err(e) => return fail("load", e.to_string()),
        }
        c.label("stored");
    }
    c.nontrivial = hashed > 0 && p.n_ops >= 2;
    c.fingerprint(&show(&p.h));
    Ok(())
}

/// One edit somewhere in the program. Returns what was done.
fn edit(c: &mut Case, h: &mut Hugr) -> Option<&'static str> {
    let nodes: Vec<Node> = h.descendants(h.module_root()).filter(|n| h.get_parent(*n).is_some_and(|p| p != h.module_root()) || matches!(h.get_optype(*n), OpType::Const(_))).collect();
    if nodes.is_empty() {
        return None;
    }
    let first = c.src.below(5);
    for attempt in 0..100 {
        let kind = if attempt < 20 { first } else { c.src.below(5) };
        let n = c.src.choose(&nodes);
        let op = h.get_optype(n).clone();
        match kind {
            // another operation with the same ports
            0 => {
                if let OpType::ExtensionOp(e) = &op {
                    let e_id = e.extension_id().to_string();
                    let fams: &[&[&str]] = &[
                        &["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "Reset"],
                        &["Rz", "Rx", "Ry"],
                        &["CX", "CZ", "CY"],
                        &["fadd", "fsub", "fmul", "fmax", "fmin"],
                        &["flt", "fge", "feq"],
                        &["And", "Or", "Xor", "Eq"],
                        &["and", "or", "xor", "eq"],
                        &["iadd", "isub", "imul"],
                        &["Measure", "LazyMeasure"],
                    ];
                    let name = e.unqualified_id().to_string();
                    let Some(f) = fams.iter().find(|f| f.contains(&name.as_str())) else { continue };
                    let new = *c.src.pick(f);
                    let ext = REG.get(e_id.as_str())?;
                    if ext.get_op(new).is_none() {
                        continue;
                    }
                    let Ok(o2) = ext.instantiate_extension_op(new, e.args().to_vec()) else { continue };
                    if o2.signature().into_owned() != e.signature().into_owned() || new == name {
                        continue;
                    }
                    *h.optype_mut(n) = o2.into();
                    return Some("operation");
                }
                if let OpType::Tag(t) = &op {
                    let same: Vec<usize> = (0..t.variants.len()).filter(|i| *i != t.tag && t.variants[*i] == t.variants[t.tag]).collect();
                    if same.is_empty() {
                        continue;
                    }
                    let mut t = t.clone();
                    t.tag = c.src.choose(&same);
                    *h.optype_mut(n) = t.into();
                    return Some("tag");
                }
            }
            // a constant
            1 => {
                let OpType::Const(k) = &op else { continue };
                let t = k.get_type();
                let v = other_const(c, &t)?;
                if format!("{v:?}") == format!("{:?}", k.value()) {
                    continue;
                }
                *h.optype_mut(n) = hugr::ops::Const::new(v).into();
                return Some("constant");
            }
            // an argument
            2 => {
                let OpType::ExtensionOp(e) = &op else { continue };
                let mut args = e.args().to_vec();
                let mut done = false;
                for a in args.iter_mut() {
                    if let hugr::types::Term::String(s) = a {
                        *a = hugr::types::Term::String(format!("{s}x").into());
                        done = true;
                        break;
                    }
                }
                if !done {
                    continue;
                }
                *h.optype_mut(n) = xop(&e.extension_id().to_string(), e.unqualified_id(), &args);
                return Some("argument");
            }
            // exchange two inputs of one node or of two nodes of the region
            3 => {
                let m = c.src.choose(&h.children(h.get_parent(n)?).collect::<Vec<_>>());
                let pick = |c: &mut Case, h: &Hugr, n: Node| -> Option<(IncomingPort, Type)> {
                    let s = h.signature(n)?;
                    let k = s.input.len();
                    if k == 0 {
                        return None;
                    }
                    let i = c.src.below(k);
                    Some((IncomingPort::from(i), s.input[i].clone()))
                };
                let Some((p, t)) = pick(c, h, n) else { continue };
                let Some((q, t2)) = pick(c, h, m) else { continue };
                if t != t2 || (n, p) == (m, q) {
                    continue;
                }
                let a = h.single_linked_output(n, p)?;
                let b = h.single_linked_output(m, q)?;
                if a == b {
                    continue;
                }
                h.disconnect(n, p);
                h.disconnect(m, q);
                h.connect(b.0, b.1, n, p);
                h.connect(a.0, a.1, m, q);
                return Some("wires");
            }
            // a call to another function
            _ => {
                if !matches!(op, OpType::Call(_) | OpType::LoadFunction(_)) {
                    continue;
                }
                let p = op.static_input_port()?;
                let (f, _) = h.single_linked_output(n, p)?;
                let ft = match h.get_optype(f) {
                    OpType::FuncDefn(x) => x.signature().clone(),
                    OpType::FuncDecl(x) => x.signature().clone(),
                    _ => continue,
                };
                let other = h.add_node_with_parent(h.module_root(), hugr::ops::FuncDecl::new("somewhere_else", ft));
                h.disconnect(n, p);
                h.connect(other, 0, n, p);
                return Some("callee");
            }
        }
    }
    None
}
fn other_const(c: &mut Case, t: &Type) -> Option<hugr::ops::Value> {
    if *t == t_f() {
        return Some(c_f(c.src.float()));
    }
    if *t == t_r() {
        return Some(c_r(c.src.float()));
    }
    if *t == t_b() {
        return Some(c_b(c.src.flip()));
    }
    if *t == t_tb() {
        return Some(c_tb(c.src.flip()));
    }
    if *t == t_u() {
        return Some(c_u(c.src.draw(9)));
    }
    for w in [3, 5, 6] {
        if *t == t_i(w) {
            return Some(c_i(w, c.src.draw(9)));
        }
    }
    None
}

fn different(c: &mut Case) -> Res {
    let p = program(&mut c.src, &cfg().without(&[Cond]));
    must_validate(&p.h, "generated program");
    let mut h = p.h.clone();
    let what = edit(c, &mut h);
    let Some(what) = what else { return Err(Stop::Discard("nothing to edit")) };
    c.describe(|| format!("{}\nchanged ({what}) to\n{}", show(&p.h), show(&h)));
    if !catch(|| h.validate().is_ok()).unwrap_or(false) {
        return Err(Stop::Discard("edit makes a cycle"));
    }
    let mut canon = Canon::default();
    let mut n_diff = 0;
    for n in dataflow_regions(&p.h) {
        let (Some(x), Some(y)) = (canon.region(&p.h, n), canon.region(&h, n)) else { continue };
        let a = hash_of(&p.h, n)?;
        let b = hash_of(&h, n)?;
        if x == y {
            ensure!(a == b, "same graph", "the region {n} is the same graph after changing {what} elsewhere, but its hash changes");
        } else {
            n_diff += 1;
            ensure!(a != b, format!("blind to {what}"), "the region {n} differs after changing {what}, but its hash {a:?} stays");
        }
    }
    if n_diff > 0 {
        c.nontrivial = true;
        c.label(what);
    }
    c.fingerprint(&format!("{}{}", show(&p.h), show(&h)));
    Ok(())
}

/// Pairs of unrelated small programs, all pairs compared.
fn pairs(c: &mut Case) -> Res {
    let mut k = Cfg::new(PURE_GATES);
    k.ops = (0, 3);
    k.ins = vec![(t_q(), 1)];
    k.n_ins = (1, 2);
    let mut canon = Canon::default();
    let mut seen: Vec<(usize, u64)> = vec![];
    let mut eq = 0;
    for _ in 0..12 {
        let p = program(&mut c.src, &k);
        let (Some(x), Some(a)) = (canon.region(&p.h, p.main), hash_of(&p.h, p.main)?) else { continue };
        for (y, b) in &seen {
            ensure!((x == *y) == (a == *b), "pairs", "equal graphs: {}, equal hashes: {}\n{}", x == *y, a == *b, show(&p.h));
            eq += (x == *y) as usize;
        }
        seen.push((x, a));
    }
    c.nontrivial = eq > 0;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "same: a hashed region with at least two operations; different: the edit changes the graph seen from a region's output; pairs: at least two equal graphs among the twelve",
        assumptions: &["operations no output depends on do not count (the hash is documented as the hash of the output node)", "regions containing conditionals or control-flow graphs have no hash (an error), by design"],
        suites: vec![
            Suite { name: "same", quick: 60000, thorough: 2000000, run: same },
            Suite { name: "different", quick: 120000, thorough: 4000000, run: different },
            Suite { name: "pairs", quick: 10000, thorough: 400000, run: pairs },
        ],
        hang_violation: None,
    }
}
