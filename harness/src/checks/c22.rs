//! C22: resource tracking, and C23: expressions for copyable values.
use super::c01::dataflow_regions;
use super::common::*;
use super::selftest::full_cfg;
use crate::ensure;
use crate::hb::*;
use crate::prog::*;
use crate::run::*;
use hugr::hugr::views::sibling_subgraph::{InvalidSubgraph, ValidationMode};
use hugr::hugr::views::SiblingSubgraph;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTrait, OpType};
use hugr::types::Type;
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex, Wire};
use indexmap::IndexSet;
use std::collections::{BTreeMap, BTreeSet};
use tket::resource::*;
use tket::subcircuit::CopyableExpr;
use tket::Circuit;

const I: Direction = Direction::Incoming;
const O: Direction = Direction::Outgoing;

fn types(h: &Hugr, n: Node, d: Direction) -> Option<Vec<Type>> {
    let s = h.get_optype(n).dataflow_signature()?;
    Some(if d == I { s.input_types().to_vec() } else { s.output_types().to_vec() })
}
/// What a flow does with an operation: for each output the input it continues.
#[derive(Clone, Copy)]
enum Rule {
    Documented,
    /// some other rule chosen by the operation's name
    Odd(u64),
}
fn rule_map(r: Rule, name: &str, i: &[Type], o: &[Type]) -> Vec<Option<usize>> {
    let lin = |t: &Type| !t.copyable();
    match r {
        Rule::Documented => {
            let n = i.len().max(o.len());
            let keeps = (0..n).all(|k| match (i.get(k), o.get(k)) {
                (Some(a), Some(b)) => (!lin(a) && !lin(b)) || a == b,
                (Some(a), None) | (None, Some(a)) => !lin(a),
                _ => true,
            });
            (0..o.len()).map(|k| (keeps && lin(&o[k])).then_some(k)).collect()
        }
        Rule::Odd(seed) => {
            let mut rng = crate::gen::Rng::new(crate::run::hash(&(seed, name)));
            let mut free: Vec<usize> = (0..i.len()).filter(|k| lin(&i[*k])).collect();
            (0..o.len())
                .map(|k| {
                    if !lin(&o[k]) || rng.next() % 4 == 0 {
                        return None;
                    }
                    let c: Vec<usize> = free.iter().copied().filter(|x| i[*x] == o[k]).collect();
                    if c.is_empty() {
                        return None;
                    }
                    let x = c[(rng.next() % c.len() as u64) as usize];
                    free.retain(|y| *y != x);
                    Some(x)
                })
                .collect()
        }
    }
}
struct OddFlow(u64);
impl<H: HugrView> ResourceFlow<H> for OddFlow {
    fn map_resources(&self, node: H::Node, h: &H, inputs: &[Option<ResourceId>]) -> Result<Vec<Option<ResourceId>>, UnsupportedOp> {
        let op = h.get_optype(node);
        let s = op.dataflow_signature().unwrap();
        let m = rule_map(Rule::Odd(self.0), &op.to_string(), s.input_types(), s.output_types());
        Ok(m.into_iter().map(|k| k.and_then(|k| inputs[k])).collect())
    }
}

/// Everything reachable from some edges within a set of nodes.
fn reach(h: &Hugr, nodes: &BTreeSet<Node>, start: impl IntoIterator<Item = Node>) -> BTreeSet<Node> {
    let mut seen = BTreeSet::new();
    let mut todo: Vec<Node> = start.into_iter().filter(|n| nodes.contains(n)).collect();
    while let Some(n) = todo.pop() {
        if seen.insert(n) {
            todo.extend(h.output_neighbours(n).filter(|m| nodes.contains(m)));
        }
    }
    seen
}

/// A program, a region and a scope in it.
fn scope(c: &mut Case) -> Result<(Hugr, Option<SiblingSubgraph>, Rule), Stop> {
    let mut cfg = full_cfg();
    cfg.const_away = false;
    cfg = if c.src.chance(1, 3) { cfg.with(&[(K::Order, 6)]) } else { cfg.without(ORDERED) };
    let p = program(&mut c.src, &cfg);
    must_validate(&p.h, "generated program");
    label_feats(c, &p);
    let mut h = p.h;
    let rs = dataflow_regions(&h);
    let big: Vec<Node> = rs.iter().copied().filter(|r| h.children(*r).count() > 5).collect();
    let r = if !big.is_empty() && c.src.chance(2, 3) { *c.src.pick(&big) } else { *c.src.pick(&rs) };
    h.set_entrypoint(r);
    let rule = if c.src.chance(1, 3) { Rule::Odd(c.src.below(1000) as u64) } else { Rule::Documented };
    // the whole region, or a part of it
    let sg = if c.src.chance(1, 2) {
        match (Circuit::new(&h).subgraph(), Circuit::new(h.clone()).subgraph()) {
            (Ok(s), _) => Some(s),
            (Err(InvalidSubgraph::EmptySubgraph), _) => None,
            (Err(_), _) => return Err(Stop::Discard("not a subgraph")),
        }
    } else {
        let all: Vec<Node> = h.children(r).skip(2).filter(|n| types(&h, *n, I).is_some()).collect();
        if all.is_empty() {
            return Err(Stop::Discard("no operations"));
        }
        let a = *c.src.pick(&all);
        let mut set = BTreeSet::from([a]);
        let k = c.src.range(1, 8);
        for _ in 0..k {
            let cand: Vec<Node> = set.iter().flat_map(|n| h.all_neighbours(*n).collect::<Vec<_>>()).filter(|n| all.contains(n) && !set.contains(n)).collect();
            if cand.is_empty() {
                break;
            }
            set.insert(*c.src.pick(&cand));
        }
        // close it, and take the constants along
        let kids: BTreeSet<Node> = h.children(r).collect();
        let after = reach(&h, &kids, set.clone());
        let before: BTreeSet<Node> = after.iter().copied().filter(|n| reach(&h, &kids, [*n]).intersection(&set).next().is_some()).collect();
        set.extend(before);
        let consts: Vec<Node> = set.iter().flat_map(|n| h.input_neighbours(*n).collect::<Vec<_>>()).filter(|n| kids.contains(n) && matches!(h.get_optype(*n), OpType::Const(_))).collect();
        set.extend(consts);
        let v: Vec<Node> = set.into_iter().collect();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| SiblingSubgraph::try_from_nodes(v, &h))) {
            Ok(Ok(s)) => Some(s),
            _ => return Err(Stop::Discard("not a subgraph")),
        }
    };
    Ok((h, sg, rule))
}
fn build<'h>(c: &mut Case, h: &'h Hugr, sg: &Option<SiblingSubgraph>, rule: Rule) -> Result<ResourceScope<&'h Hugr>, Stop> {
    let whole = c.src.flip();
    let odd = c.src.flip();
    no_panic("ResourceScope", || match (sg, rule) {
        (None, _) => ResourceScope::new_empty(h),
        (Some(s), Rule::Documented) if whole => ResourceScope::new(h, s.clone()),
        (Some(s), Rule::Documented) => ResourceScope::with_config(h, s.clone(), &[DefaultResourceFlow].into_iter().collect()),
        (Some(s), Rule::Odd(x)) if odd => ResourceScope::with_config(h, s.clone(), &[OddFlow(x)].into_iter().collect()),
        (Some(s), Rule::Odd(x)) => ResourceScope::with_config(h, s.clone(), &[ResourceFlow::<&Hugr>::into_boxed(OddFlow(x)), DefaultResourceFlow.into_boxed()].into_iter().collect()),
    })
}

fn resources(c: &mut Case) -> Res {
    let (h, sg, rule) = scope(c)?;
    c.describe(|| format!("{:?}\n{}", sg.as_ref().map(|s| s.nodes().to_vec()), show(&h)));
    let s = build(c, &h, &sg, rule)?;
    let Some(sg) = sg else {
        ensure!(s.is_empty() && s.nodes().is_empty() && s.resources_iter().next().is_none(), "empty", "an empty region is not");
        let t = no_panic("from_circuit", || ResourceScope::from_circuit(Circuit::new(h.clone())))?;
        ensure!(t.is_empty(), "empty", "an empty region is not");
        return Ok(());
    };
    let nodes: BTreeSet<Node> = sg.nodes().iter().copied().collect();
    ensure!(!s.is_empty() && s.nodes() == sg.nodes() && s.subgraph() == Some(&sg), "nodes", "other nodes");
    // what belongs together
    let mut ports: Vec<(Node, Port)> = vec![];
    let mut idx: BTreeMap<(Node, Port), usize> = BTreeMap::new();
    for n in &nodes {
        for d in [I, O] {
            let Some(ts) = types(&h, *n, d) else {
                ensure!(s.get_circuit_unit(*n, Port::new(d, 0)).is_none() && s.get_position(*n).is_none(), "units", "{n} has none");
                continue;
            };
            for (i, t) in ts.iter().enumerate() {
                if !t.copyable() {
                    idx.insert((*n, Port::new(d, i)), ports.len());
                    ports.push((*n, Port::new(d, i)));
                }
            }
        }
    }
    let mut up: Vec<usize> = (0..ports.len()).collect();
    fn find(up: &mut [usize], mut x: usize) -> usize {
        while up[x] != x {
            x = up[x];
        }
        x
    }
    let (mut starts, mut kept) = (0, 0);
    for n in &nodes {
        let (Some(i), Some(o)) = (types(&h, *n, I), types(&h, *n, O)) else { continue };
        for (k, f) in rule_map(rule, &h.get_optype(*n).to_string(), &i, &o).into_iter().enumerate() {
            if let Some(f) = f {
                let (a, b) = (find(&mut up, idx[&(*n, Port::new(I, f))]), find(&mut up, idx[&(*n, Port::new(O, k))]));
                up[a] = b;
                kept += 1;
            } else if !o[k].copyable() {
                starts += 1;
            }
        }
        for (k, t) in i.iter().enumerate() {
            if !t.copyable() {
                let (m, q) = h.single_linked_output(*n, IncomingPort::from(k)).unwrap();
                if nodes.contains(&m) {
                    let (a, b) = (find(&mut up, idx[&(*n, Port::new(I, k))]), find(&mut up, idx[&(m, q.into())]));
                    up[a] = b;
                }
            }
        }
    }
    // every port has the unit it must have
    let mut of: BTreeMap<usize, ResourceId> = BTreeMap::new();
    let mut back: BTreeMap<ResourceId, usize> = BTreeMap::new();
    for n in h.children(h.entrypoint()).collect::<Vec<_>>() {
        for d in [I, O] {
            let Some(ts) = types(&h, n, d) else { continue };
            if !nodes.contains(&n) {
                ensure!(s.get_circuit_units_slice(n, d).is_none() && s.get_position(n).is_none(), "outside", "{n} is outside of the scope but has units");
                continue;
            }
            let sl = s.get_circuit_units_slice(n, d);
            ensure!(sl.is_some_and(|x| x.len() == ts.len()), "units", "{n} has {:?} for {} ports", sl.map(|x| x.len()), ts.len());
            for (i, t) in ts.iter().enumerate() {
                let p = Port::new(d, i);
                let u = s.get_circuit_unit(n, p);
                ensure!(u == Some(sl.unwrap()[i]), "units", "slice and lookup differ");
                let u = u.unwrap();
                if t.copyable() {
                    let w = match p.as_directed() {
                        itertools::Either::Left(x) => {
                            let (m, q) = h.single_linked_output(n, x).unwrap();
                            Wire::new(m, q)
                        }
                        itertools::Either::Right(x) => Wire::new(n, x),
                    };
                    ensure!(u == CircuitUnit::Copyable(w) && u.is_copyable() && !u.is_resource() && u.as_copyable_wire() == Some(w), "copyable", "{n} {p:?}: {u:?} is not {w}");
                    ensure!(s.get_resource_id(n, p).is_none(), "copyable", "a copyable port has a resource");
                } else {
                    let Some(r) = u.as_resource() else { return fail("linear", format!("{n} {p:?} is not a resource but {u:?}")) };
                    ensure!(s.get_resource_id(n, p) == Some(r), "linear", "{n} {p:?}");
                    let k = find(&mut up, idx[&(n, p)]);
                    ensure!(*of.entry(k).or_insert(r) == r, "a path is cut", "{n} {p:?} has resource {r:?}, others on its path have {:?}", of[&k]);
                    ensure!(*back.entry(r).or_insert(k) == k, "paths are merged", "{n} {p:?}: {r:?} is also on another path");
                }
            }
            // lists
            let rs: Vec<ResourceId> = s.get_resources(n, d).collect();
            let e: Vec<ResourceId> = (0..ts.len()).filter(|i| !ts[*i].copyable()).map(|i| s.get_resource_id(n, Port::new(d, i)).unwrap()).collect();
            ensure!(rs == e, "get_resources", "{n}: {rs:?} instead of {e:?}");
            ensure!(e.iter().collect::<BTreeSet<_>>().len() == e.len(), "resource twice", "{n} {d:?} {e:?}");
            let ws = s.get_copyable_wires(n, d).count();
            ensure!(ws + e.len() == ts.len(), "get_copyable_wires", "{n}: {ws}");
            for (i, t) in ts.iter().enumerate() {
                if !t.copyable() {
                    let p = Port::new(d, i);
                    ensure!(s.get_port(n, s.get_resource_id(n, p).unwrap(), d) == Some(p), "get_port", "{n} {p:?}");
                }
            }
        }
    }
    let ids: Vec<ResourceId> = s.resources_iter().collect();
    let e: Vec<ResourceId> = of.values().copied().collect::<BTreeSet<_>>().into_iter().collect();
    ensure!(ids == e, "resources_iter", "{ids:?} instead of {e:?}");
    ensure!(ids.iter().enumerate().all(|(i, r)| r.as_usize() == i), "ids", "not numbered one by one: {ids:?}");
    // the inputs of the scope come first
    let ins: Vec<ResourceId> = sg.incoming_ports().iter().flatten().filter_map(|(n, p)| s.get_resource_id(*n, *p)).collect();
    ensure!(ins.iter().enumerate().all(|(i, r)| r.as_usize() == i), "ids", "the inputs have {ins:?}");
    // positions
    for n in &nodes {
        let Some(p) = s.get_position(*n) else { continue };
        for m in h.output_neighbours(*n).filter(|m| nodes.contains(m)) {
            let Some(q) = s.get_position(m) else { continue };
            ensure!(p < q, "positions", "{n} at {p:?} comes before {m} at {q:?}");
        }
    }
    // paths
    for (n, p) in &ports {
        let r = s.get_resource_id(*n, *p).unwrap();
        let d = c.src.choose(&[I, O]);
        let got: Vec<Node> = no_panic("resource_path_iter", || s.resource_path_iter(r, *n, d).collect())?;
        let mut e = vec![*n];
        loop {
            let at = *e.last().unwrap();
            let Some(q) = ports.iter().find(|(m, q)| *m == at && q.direction() == d && s.get_resource_id(*m, *q) == Some(r)) else { break };
            let (m, _) = h.single_linked_port(at, q.1).unwrap();
            if !nodes.contains(&m) {
                break;
            }
            e.push(m);
        }
        ensure!(got == e, "resource_path_iter", "{r:?} from {n} {d:?}: {got:?} instead of {e:?}");
        let all = s.get_all_resources(*n);
        let both: BTreeSet<ResourceId> = s.get_resources(*n, I).chain(s.get_resources(*n, O)).collect();
        ensure!(all == both.iter().copied().collect::<Vec<_>>(), "get_all_resources", "{n}");
        let st = !s.get_resources(*n, I).any(|x| x == r);
        ensure!(s.is_resource_start(*n, r) == st, "is_resource_start", "{n} {r:?}: {st}");
    }
    // reachability
    let list: Vec<Node> = nodes.iter().copied().collect();
    for _ in 0..4 {
        let pick = |c: &mut Case, d: Direction| -> Vec<(Node, Port)> {
            let k = c.src.range(1, 3);
            (0..k)
                .filter_map(|_| {
                    let n = *c.src.pick(&list);
                    let t = types(&h, n, d)?;
                    (!t.is_empty()).then(|| (n, Port::new(d, c.src.below(t.len()))))
                })
                .collect()
        };
        let a = pick(c, O);
        let b = pick(c, I);
        let got = no_panic("any_reachable_from", || s.any_reachable_from(a.iter().map(|(n, p)| (*n, p.as_outgoing().unwrap())), b.iter().map(|(n, p)| (*n, p.as_incoming().unwrap()))))?;
        let from = reach(&h, &nodes, a.iter().flat_map(|(n, p)| h.linked_inputs(*n, p.as_outgoing().unwrap()).map(|x| x.0).collect::<Vec<_>>()));
        let e = b.iter().any(|(n, _)| from.contains(n));
        ensure!(got == e, "any_reachable_from", "{a:?} to {b:?}: {got}, not {e}");
    }
    c.fingerprint(&show(&h));
    c.label(if matches!(rule, Rule::Odd(_)) { "other flow" } else { "default flow" });
    c.nontrivial = ids.len() > 1 && kept > 1 && nodes.len() > 2;
    if starts > 0 {
        c.label("new resources");
    }
    Ok(())
}
/// Building a scope from circuits directly.
fn circuits(c: &mut Case) -> Res {
    let p = program(&mut c.src, &full_cfg());
    must_validate(&p.h, "generated program");
    let mut h = p.h;
    let mut rs: Vec<Node> = h.descendants(h.module_root()).filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_) | OpType::ExitBlock(_))).collect();
    if c.src.chance(9, 10) {
        rs = dataflow_regions(&h);
    }
    let r = *c.src.pick(&rs);
    h.set_entrypoint(r);
    c.describe(|| show(&h));
    let Ok(circ) = no_panic("Circuit::try_new", || Circuit::try_new(h.clone()))? else {
        c.label("not a circuit");
        return Ok(());
    };
    let a = no_panic("try_from_circuit", || ResourceScope::try_from_circuit(circ.clone()))?;
    let b = no_panic("try_from_circuit_ref", || ResourceScope::try_from_circuit_ref(&circ).map(|s| (s.is_empty(), s.nodes().to_vec(), s.resources_iter().collect::<Vec<_>>())))?;
    let region = matches!(h.get_optype(r), OpType::FuncDefn(_) | OpType::DFG(_) | OpType::Case(_) | OpType::DataflowBlock(_) | OpType::TailLoop(_));
    match (a, b) {
        (Ok(s), Ok((e, n, ids))) => {
            ensure!(region, "accepted", "not a dataflow region");
            let kids: Vec<Node> = h.children(r).skip(2).collect();
            ensure!(s.nodes() == kids && n == kids, "nodes", "{:?} instead of {kids:?}", s.nodes());
            ensure!(s.is_empty() == kids.is_empty() && e == kids.is_empty(), "empty", "wrong");
            ensure!(ids == s.resources_iter().collect::<Vec<_>>(), "ref", "differ");
            c.nontrivial = ids.len() > 1;
            let t = no_panic("From", || ResourceScope::from(&circ).resources_iter().collect::<Vec<_>>())?;
            ensure!(t == ids, "From", "differ");
            for x in s.nodes() {
                for d in [I, O] {
                    ensure!(s.get_circuit_units_slice(*x, d).map(|v| v.len()) == types(&h, *x, d).map(|v| v.len()), "units", "missing");
                }
            }
            // each linear input of the region starts at most one path
            let [inp, out] = h.get_io(r).unwrap();
            for (i, t) in types(&h, inp, O).unwrap().iter().enumerate() {
                if t.copyable() {
                    continue;
                }
                let (m, q) = h.single_linked_input(inp, OutgoingPort::from(i)).unwrap();
                if m != out {
                    let id = s.get_resource_id(m, q);
                    ensure!(id.is_some_and(|id| s.resource_path_iter(id, m, I).count() == 1), "start", "the path of input {i} does not start there");
                }
            }
        }
        (Err(_), Err(_)) => {
            c.label("refused");
            let ok = region
                && h.children(r).all(|n| h.node_inputs(n).all(|p| h.linked_outputs(n, p).all(|(m, _)| h.get_parent(m) == Some(r) || matches!(h.get_optype(m), OpType::FuncDefn(_) | OpType::FuncDecl(_)))))
                && h.get_io(r).unwrap().iter().all(|n| {
                    let op = h.get_optype(*n);
                    !op.other_input_port().is_some_and(|p| h.is_linked(*n, p)) && !op.other_output_port().is_some_and(|p| h.is_linked(*n, p))
                })
                && h.children(r).all(|n| h.node_outputs(n).all(|p| h.linked_inputs(n, p).all(|(m, _)| h.get_parent(m) == Some(r))));
            ensure!(!ok, "refused", "a region with nothing at its boundary but values");
        }
        _ => return fail("ref", "one is refused only".to_string()),
    }
    c.fingerprint(&show(&h));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "a scope with several resources passing several operations",
        assumptions: &["scopes are built on subgraphs that hugr accepts as convex"],
        suites: vec![Suite { name: "resources", quick: 60000, thorough: 3000000, run: resources }, Suite { name: "circuits", quick: 30000, thorough: 1000000, run: circuits }],
        hang_violation: None,
    }
}

/// These bring order edges.
const ORDERED: &[K] = &[K::Order, K::StateRes, K::ResOp, K::ResArr, K::Print, K::Panic];

// ---- C23
fn expressions(c: &mut Case) -> Res {
    let mut cfg = full_cfg().with(&[(K::Rot, 8), (K::Flt, 8), (K::Log, 6), (K::Int, 6), (K::Tup, 4), (K::Untup, 4), (K::Call, 4), (K::Dfg, 3), (K::Cond, 3)]);
    cfg.ops = (3, 25);
    cfg.const_away = false;
    cfg = if c.src.chance(1, 3) { cfg.with(&[(K::Order, 6)]) } else { cfg.without(ORDERED) };
    let p = program(&mut c.src, &cfg);
    must_validate(&p.h, "generated program");
    let mut h = p.h;
    let rs = dataflow_regions(&h);
    let r = *c.src.pick(&rs);
    h.set_entrypoint(r);
    let Ok(s) = ResourceScope::try_from_circuit(Circuit::new(&h)) else { return Err(Stop::Discard("not a subgraph")) };
    let nodes: BTreeSet<Node> = s.nodes().iter().copied().collect();
    let cand: Vec<(Node, OutgoingPort)> = h
        .children(r)
        .flat_map(|n| h.out_value_types(n).filter(|(_, t)| t.copyable()).map(move |(p, _)| (n, p)).collect::<Vec<_>>())
        .collect();
    if cand.is_empty() {
        return Err(Stop::Discard("no copyable value"));
    }
    let pure = |n: Node| nodes.contains(&n) && h.in_value_types(n).all(|x| x.1.copyable()) && h.out_value_types(n).all(|x| x.1.copyable());
    let deep: Vec<(Node, OutgoingPort)> = cand.iter().copied().filter(|(n, _)| pure(*n) && h.in_value_types(*n).count() > 0).collect();
    let out = if !deep.is_empty() && c.src.chance(7, 8) { *c.src.pick(&deep) } else { *c.src.pick(&cand) };
    let ports: Vec<(Node, IncomingPort)> = h.children(r).flat_map(|n| h.in_value_types(n).map(move |(p, _)| (n, p)).collect::<Vec<_>>()).collect();
    let kids: Vec<Node> = h.children(r).collect();
    let mut allowed = IndexSet::new();
    let mut excl = IndexSet::new();
    for _ in 0..c.src.below(6) {
        if !ports.is_empty() {
            allowed.insert(*c.src.pick(&ports));
        }
    }
    for _ in 0..c.src.below(5) {
        excl.insert(*c.src.pick(&kids));
    }
    if excl.contains(&out.0) && c.src.chance(4, 5) {
        excl.shift_remove(&out.0);
    }
    c.describe(|| format!("{out:?} allowed {allowed:?} excluded {excl:?}\n{}", show(&h)));
    c.fingerprint(&(format!("{out:?} {allowed:?} {excl:?}"), show(&h)));
    let got = no_panic("CopyableExpr", || CopyableExpr::try_new(out, allowed.clone(), excl.clone(), &s))?;
    // what belongs to it
    let ok = |n: Node| pure(n) && !excl.contains(&n);
    if !ok(out.0) {
        ensure!(got == Ok(CopyableExpr::Wire(Wire::new(out.0, out.1))), "not a wire", "{got:?}");
        let g = got.unwrap();
        ensure!(g.output() == out && g.as_subgraph().is_none(), "wire", "{g:?}");
        return Ok(());
    }
    let mut set = BTreeSet::new();
    let mut inputs = BTreeSet::new();
    let mut inner: BTreeSet<(Node, IncomingPort)> = BTreeSet::new();
    let mut todo = vec![out.0];
    while let Some(n) = todo.pop() {
        if !set.insert(n) {
            continue;
        }
        for (p, _) in h.in_value_types(n) {
            let m = h.single_linked_output(n, p).unwrap().0;
            if allowed.contains(&(n, p)) || !ok(m) {
                inputs.insert((n, p));
            } else {
                inner.insert((n, p));
                todo.push(m);
            }
        }
    }
    // convex?
    let kid_set: BTreeSet<Node> = kids.iter().copied().collect();
    let is_const = |n: Node| matches!(h.get_optype(n), OpType::Const(_));
    let away: Vec<Node> = set.iter().flat_map(|n| h.output_neighbours(*n).collect::<Vec<_>>()).filter(|m| !set.contains(m)).collect();
    let cut_inside = inputs.iter().any(|(n, p)| set.contains(&h.single_linked_output(*n, *p).unwrap().0));
    let back: BTreeSet<Node> = reach(&h, &kid_set, away).intersection(&set).copied().collect();
    let convex = !cut_inside && back.is_empty();
    let value_back = reach_values(&h, &kid_set, set.iter().flat_map(|n| value_succ(&h, *n, &inner)).collect()).intersection(&set).next().is_some();
    let Ok(expr) = got else {
        ensure!(got == Err(InvalidSubgraph::NotConvex), "error", "{got:?}");
        ensure!(!convex, "refused", "the expression is convex");
        c.label("not convex");
        c.nontrivial = true;
        return Ok(());
    };
    ensure!(convex, if value_back { "not convex" } else { "not convex by order edges" }, "{expr:?} leaves the expression and comes back to {back:?}");
    let Some(sg) = expr.as_subgraph() else { return fail("a wire", format!("{expr:?}")) };
    ensure!(expr.output() == out, "output", "{:?} instead of {out:?}", expr.output());
    let n: Vec<Node> = sg.nodes().iter().copied().filter(|n| !is_const(*n)).collect();
    let ns: BTreeSet<Node> = n.iter().copied().collect();
    ensure!(ns == set && n.len() == set.len(), "nodes", "{n:?} instead of {set:?}");
    ensure!((0..n.len()).all(|i| (0..i).all(|j| !h.output_neighbours(n[i]).any(|x| x == n[j]))), "order", "{n:?} is not in order");
    let ins: Vec<(Node, IncomingPort)> = sg.incoming_ports().iter().flatten().copied().collect();
    ensure!(ins.len() == inputs.len() && ins.iter().copied().collect::<BTreeSet<_>>() == inputs, "inputs", "{ins:?} instead of {inputs:?}");
    ensure!(sg.incoming_ports().iter().all(|x| x.len() == 1), "inputs", "grouped {ins:?}");
    let key = |x: &(Node, IncomingPort)| match (allowed.get_index_of(x), excl.get_index_of(&h.single_linked_output(x.0, x.1).unwrap().0)) {
        (Some(i), _) => (0, i),
        (None, Some(i)) => (1, i),
        _ => (2, 0),
    };
    ensure!(ins.windows(2).all(|w| key(&w[0]) <= key(&w[1])), "input order", "{ins:?} is ordered as {:?}", ins.iter().map(key).collect::<Vec<_>>());
    for w in ins.windows(2) {
        if key(&w[0]) == key(&w[1]) {
            // backwards from the output
            let (a, b) = (s.get_position(w[0].0), s.get_position(w[1].0));
            ensure!(a >= b, "input order", "{ins:?} is not in the order of the traversal");
            ensure!(w[0].0 != w[1].0 || w[0].1 < w[1].1, "input order", "{ins:?}");
        }
    }
    let outs: BTreeSet<(Node, OutgoingPort)> = set
        .iter()
        .flat_map(|n| h.out_value_types(*n).map(move |(p, _)| (*n, p)).collect::<Vec<_>>())
        .filter(|(n, p)| (*n, *p) == out || h.linked_inputs(*n, *p).any(|x| !inner.contains(&x)))
        .collect();
    let o = sg.outgoing_ports();
    ensure!(o.iter().copied().collect::<BTreeSet<_>>() == outs && o.len() == outs.len(), "outputs", "{o:?} instead of {outs:?}");
    // functions used
    let mut fs: BTreeMap<(Node, OutgoingPort), BTreeSet<(Node, IncomingPort)>> = BTreeMap::new();
    for n in &set {
        if let Some(p) = h.get_optype(*n).static_input_port() {
            let src = h.single_linked_output(*n, p).unwrap();
            if matches!(h.get_optype(src.0), OpType::FuncDefn(_) | OpType::FuncDecl(_)) {
                fs.entry(src).or_default().insert((*n, p));
            }
        }
    }
    let gf: BTreeSet<BTreeSet<(Node, IncomingPort)>> = sg.function_calls().iter().map(|x| x.iter().copied().collect()).collect();
    ensure!(gf == fs.values().cloned().collect() && sg.function_calls().len() == fs.len(), "function calls", "{:?} instead of {fs:?}", sg.function_calls());
    // accepted by hugr, up to constants
    let consts = set.iter().any(|n| matches!(h.get_optype(*n), OpType::LoadConstant(_)));
    let ordered = set.iter().any(|n| {
        let op = h.get_optype(*n);
        op.other_input_port().is_some_and(|p| h.is_linked(*n, p)) || op.other_output_port().is_some_and(|p| h.is_linked(*n, p))
    });
    let unused = h.linked_inputs(out.0, out.1).next().is_none();
    if !consts && !ordered && fs.is_empty() && !unused {
        let v = sg.validate(&h, ValidationMode::SkipConvexity);
        ensure!(v.is_ok(), "not a subgraph", "{v:?}");
    }
    let sig = sg.signature(&h);
    ensure!(sig.input_count() == ins.len() && sig.output_count() == o.len(), "signature", "{sig}");
    let js = serde_json::to_string(&expr).unwrap();
    let e2: Result<CopyableExpr, _> = serde_json::from_str(&js);
    ensure!(e2.as_ref().is_ok_and(|e| *e == expr), "json", "{js} reads as {e2:?}");
    c.label(format!("size {}", set.len().min(6)));
    if !allowed.is_empty() && ins.iter().any(|x| allowed.contains(x)) {
        c.label("allowed inputs");
    }
    if ins.iter().any(|x| excl.contains(&h.single_linked_output(x.0, x.1).unwrap().0)) {
        c.label("excluded sources");
    }
    c.nontrivial = set.len() > 1;
    Ok(())
}
fn value_succ(h: &Hugr, n: Node, inner: &BTreeSet<(Node, IncomingPort)>) -> Vec<Node> {
    h.out_value_types(n).flat_map(|(p, _)| h.linked_inputs(n, p).collect::<Vec<_>>()).filter(|x| !inner.contains(x)).map(|x| x.0).collect()
}
fn reach_values(h: &Hugr, nodes: &BTreeSet<Node>, start: Vec<Node>) -> BTreeSet<Node> {
    let mut seen = BTreeSet::new();
    let mut todo: Vec<Node> = start.into_iter().filter(|n| nodes.contains(n)).collect();
    while let Some(n) = todo.pop() {
        if seen.insert(n) {
            for (p, _) in h.out_value_types(n) {
                todo.extend(h.linked_inputs(n, p).map(|x| x.0).filter(|m| nodes.contains(m)));
            }
        }
    }
    seen
}
pub fn prop23() -> Prop {
    Prop {
        id: "C23",
        rule: "an expression of several operations, or one that is rightly refused as not convex",
        assumptions: &["the region is one that resource tracking accepts"],
        suites: vec![Suite { name: "expressions", quick: 100000, thorough: 5000000, run: expressions }],
        hang_violation: None,
    }
}
