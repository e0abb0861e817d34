//! C15: rewrites from sets of equivalent circuits, alone and combined by the strategies.
use super::common::*;
use crate::ecc;
use crate::ensure;
use crate::flat::*;
use crate::gen::Src;
use crate::interp::*;
use crate::run::*;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use tket::circuit::cost::{CircuitCost, CostDelta};
use tket::optimiser::badger::EqCircClass;
use tket::rewrite::strategy::*;
use tket::rewrite::{CircuitRewrite, ECCRewriter, Rewriter};
use tket::Circuit;

pub fn op_name(o: &OpType) -> String {
    match o {
        OpType::ExtensionOp(e) => format!("{}{:?}", e.qualified_id(), e.args()),
        OpType::OpaqueOp(e) => format!("{}{:?}", e.qualified_id(), e.args()),
        o => format!("{o:?}"),
    }
}
type Ops = BTreeMap<String, isize>;
fn ops(h: &impl HugrView<Node = Node>, ns: impl IntoIterator<Item = Node>) -> Ops {
    let mut m = Ops::new();
    for n in ns {
        if !matches!(h.get_optype(n), OpType::Input(_) | OpType::Output(_)) {
            *m.entry(op_name(h.get_optype(n))).or_default() += 1;
        }
    }
    m
}
fn inner(h: &Hugr, r: Node) -> Ops {
    ops(h, h.descendants(r).filter(|n| *n != r))
}
fn plus(a: &Ops, b: &Ops, k: isize) -> Ops {
    let mut m = a.clone();
    for (x, n) in b {
        *m.entry(x.clone()).or_default() += k * n;
    }
    m.retain(|_, n| *n != 0);
    m
}
fn counts(o: &str) -> bool {
    let s = o.starts_with("prelude.Noop") || o.starts_with("prelude.MakeTuple") || o.starts_with("prelude.UnpackTuple");
    !s && !o.starts_with("Const") && !o.starts_with("LoadConstant")
}
/// The circuits of a rule set, as they are given to the rewriter.
pub struct Rules {
    pub classes: Vec<Vec<Flat>>,
    pub eccs: Vec<EqCircClass>,
    /// which circuit of its class is the representative
    pub rep: Vec<usize>,
}
pub fn rules(src: &mut Src, k: Kind, most: usize, shapes: usize) -> Rules {
    let n = src.range(1, most);
    let mut r = Rules { classes: vec![], eccs: vec![], rep: vec![] };
    for _ in 0..n {
        let c = ecc::class(src, k);
        let hs: Vec<Circuit> = c
            .iter()
            .map(|f| {
                let s = src.below(shapes);
                let h = f.build(s).0;
                must_validate(&h, "generated class member");
                Circuit::new(h)
            })
            .collect();
        if src.chance(1, 3) {
            let ns: Vec<usize> = hs.iter().map(|h| h.num_operations()).collect();
            let e = EqCircClass::from_circuits(hs).ok().unwrap();
            // the smallest one: told by its operations, in case of ties the first
            let i = (0..ns.len()).min_by_key(|i| ns[*i]).unwrap();
            r.rep.push(i);
            r.eccs.push(e);
        } else {
            let mut it = hs.into_iter();
            let rep = it.next().unwrap();
            r.rep.push(0);
            r.eccs.push(EqCircClass::new(rep, it));
        }
        r.classes.push(c);
    }
    r
}
pub struct Setup {
    pub k: Kind,
    pub rules: Rules,
    pub f: Flat,
    pub h: Hugr,
    pub at: Vec<Node>,
}
pub fn setup(c: &mut Case, most_classes: usize, most_ops: usize) -> Setup {
    if c.src.chance(1, 6) {
        return tangled(c);
    }
    let k = c.src.choose(&[Kind::Clifford, Kind::Clifford, Kind::Rot, Kind::Rot, Kind::Classical, Kind::All]);
    let shapes = if c.src.chance(1, 6) { 4 } else { 3 };
    let rules = rules(&mut c.src, k, most_classes, shapes);
    let nq = c.src.range(1, 4);
    let most = c.src.range(2, most_ops);
    let f = ecc::circuit(&mut c.src, k, &rules.classes, nq, most);
    let shape = c.src.below(if k == Kind::Clifford { 3 } else { shapes });
    let (h, at) = f.build(shape);
    must_validate(&h, "generated circuit");
    c.describe(|| format!("shape {shape}\ncircuit {f:?}\nclasses {:?}\nrepresentatives {:?}", rules.classes, rules.rep));
    c.label(format!("{k:?}"));
    c.fingerprint(&format!("{f:?}{:?}{:?}", rules.classes, rules.rep));
    Setup { k, rules, f, h, at }
}
/// Three-qubit patterns that reach into each other.
fn tangled(c: &mut Case) -> Setup {
    let k = Kind::Clifford;
    let n = c.src.range(1, 2);
    let mut rules = Rules { classes: vec![], eccs: vec![], rep: vec![] };
    for _ in 0..n {
        let v = ecc::unitary_class(&mut c.src, 3);
        let mut it = v.iter().map(|f| Circuit::new(f.build(0).0));
        let rep = it.next().unwrap();
        rules.eccs.push(EqCircClass::new(rep, it));
        rules.rep.push(0);
        rules.classes.push(v);
    }
    let nq = c.src.range(4, 5);
    let f = ecc::interleaved(&mut c.src, &rules.classes, nq);
    let (h, at) = f.build(0);
    must_validate(&h, "generated circuit");
    c.describe(|| format!("tangled\ncircuit {f:?}\nclasses {:?}\nrepresentatives {:?}", rules.classes, rules.rep));
    c.label("tangled");
    c.fingerprint(&format!("{f:?}{:?}{:?}", rules.classes, rules.rep));
    Setup { k, rules, f, h, at }
}
pub fn holder(h: &Hugr) -> Node {
    h.children(h.module_root()).find(|n| matches!(h.get_optype(*n), OpType::FuncDefn(_))).unwrap_or(h.entrypoint())
}
pub fn sim_opts(k: Kind) -> SimOpts {
    let mut o = SimOpts::default();
    o.max_qubits = 7;
    if matches!(k, Kind::Classical | Kind::All) {
        // measurements that nothing needs, qubits that are freed
        o.needed_only = false;
    }
    o
}
/// One rewrite, applied to a copy.
fn alone(c: &mut Case, s: &Setup, rw: &CircuitRewrite, before: &Summary, o: &SimOpts) -> Res {
    let mut circ = Circuit::new(s.h.clone());
    circ.enable_rewrite_tracing();
    let region = s.h.entrypoint();
    let sub: BTreeSet<Node> = rw.subgraph().nodes().iter().copied().collect();
    ensure!(rw.invalidation_set().collect::<BTreeSet<_>>() == sub, "invalidation set", "{sub:?}");
    let repl = rw.replacement();
    let rh = repl.hugr();
    let rops = ops(rh, rh.descendants(repl.parent()).filter(|n| *n != repl.parent()));
    let sops = ops(&s.h, sub.iter().copied());
    let b = circ.num_operations() as isize;
    let out = match no_panic("CircuitRewrite::apply", || rw.clone().apply(&mut circ))? {
        Ok(x) => x,
        Err(e) => return fail("a rewrite cannot be applied", format!("{e:?}")),
    };
    let h = circ.hugr();
    ensure!(h.entrypoint() == region, "rewrite: entry point", "{:?}", h.entrypoint());
    valid(h, "rewrite")?;
    ensure!(out.removed_nodes.keys().copied().collect::<BTreeSet<_>>() == sub, "rewrite: removed nodes", "{:?} instead of {sub:?}", out.removed_nodes.keys());
    for n in s.h.descendants(s.h.module_root()) {
        if !sub.contains(&n) {
            ensure!(h.contains_node(n) && op_name(h.get_optype(n)) == op_name(s.h.get_optype(n)), "rewrite: an operation outside the match changed", "{n}");
        }
    }
    // constants of the replacement may be put elsewhere, all else lands in the region
    let want = plus(&plus(&inner(&s.h, s.h.module_root()), &sops, -1), &rops, 1);
    let got = inner(h, h.module_root());
    ensure!(plus(&got, &BTreeMap::new(), 1) == want, "rewrite: operations", "{got:?} instead of {want:?}");
    let a = circ.num_operations() as isize;
    let d = rw.node_count_delta();
    let (x, y): (isize, isize) = (rops.iter().filter(|x| counts(x.0)).map(|x| x.1).sum(), sops.iter().filter(|x| counts(x.0)).map(|x| x.1).sum());
    ensure!(a - b == x - y, "rewrite: number of operations", "{b} to {a}, expected a change of {}", x - y);
    let nodes = |h: &Hugr| h.descendants(h.module_root()).count() as isize;
    let m = nodes(h) - nodes(&s.h);
    ensure!(m == d, "node_count_delta", "reported {d}, measured {m}");
    let trace: Vec<_> = circ.rewrite_trace().map(|t| t.collect()).unwrap_or_default();
    ensure!(trace.len() == 1, "rewrite: trace", "{} entries", trace.len());
    if c.src.chance(1, 4) {
        // the same without a trace
        let mut quiet = Circuit::new(s.h.clone());
        quiet.enable_rewrite_tracing();
        let res = no_panic("CircuitRewrite::apply_notrace", || rw.clone().apply_notrace(&mut quiet))?;
        ensure!(res.is_ok(), "apply_notrace refuses a rewrite that apply takes", "{:?}", res.err());
        ensure!(quiet.rewrite_trace().map(|t| t.count()) == Some(0), "apply_notrace: trace", "registered");
        let (a, b) = (tket_dump(circ.hugr()), tket_dump(quiet.hugr()));
        ensure!(a == b, "apply_notrace: another circuit", "{a}\n{b}");
    }
    if op_multi(&rops) != op_multi(&sops) {
        c.label("rewrite to different operations");
    }
    same_meaning("rewrite", before, h, holder(h), &s.f.in_tys(), &s.f.out_tys(), o)
}
/// The nodes with their operations and neighbours.
fn tket_dump(h: &Hugr) -> String {
    let mut s = String::new();
    for n in h.descendants(h.module_root()) {
        let to: Vec<_> = h.node_outputs(n).flat_map(|p| h.linked_inputs(n, p).map(move |x| (p, x))).collect();
        s += &format!("{n} {} {to:?}\n", op_name(h.get_optype(n)));
    }
    s
}
fn op_multi(o: &Ops) -> Vec<(&String, &isize)> {
    o.iter().collect()
}
/// For every member found in the circuit the rewrites to its partners have to be there.
fn complete(s: &Setup, rws: &[CircuitRewrite], matches: &BTreeMap<BTreeSet<Node>, Vec<Ops>>) -> Res {
    let _ = rws;
    for (ci, class) in s.rules.classes.iter().enumerate() {
        for (mi, m) in class.iter().enumerate() {
            let u = m.uses();
            // members with empty wires or constants are left to the other oracles
            if m.ins.iter().any(|w| u.users[*w].is_empty() || u.users[*w].iter().all(|x| x.0 == m.nodes.len())) || m.nodes.iter().any(|n| matches!(n.op, FOp::Const(_))) {
                continue;
            }
            if m.nodes.iter().all(|n| n.key.starts_with("prelude.Noop")) {
                continue;
            }
            if m.outs.iter().any(|w| u.maker[*w].is_none()) || !super::c14::rooted(m) {
                continue;
            }
            let Some(os) = super::c14::occurrences(0, m, &s.f, 200) else { continue };
            let targets: Vec<usize> = if mi == s.rules.rep[ci] { (0..class.len()).filter(|i| *i != mi).collect() } else { vec![s.rules.rep[ci]] };
            for (o, must, _) in os {
                if !must || !super::c14::bounded(m) {
                    continue;
                }
                let nodes: BTreeSet<Node> = o.nodes.iter().map(|i| s.at[*i]).collect();
                for t in &targets {
                    let h = class[*t].build(0).0;
                    let want = plus(&inner(&h, h.entrypoint()), &BTreeMap::new(), 1);
                    let found = matches.get(&nodes).is_some_and(|v| v.contains(&want));
                    ensure!(found, "a rewrite is missing", "class {ci} circuit {mi} at {:?} to circuit {t}", o.nodes);
                }
            }
        }
    }
    Ok(())
}
fn rewriter(r: &Rules) -> Res<ECCRewriter> {
    let e = r.eccs.clone();
    no_panic("ECCRewriter::from_eccs", || ECCRewriter::from_eccs(e))
}
fn single(c: &mut Case) -> Res {
    let s = setup(c, 4, 10);
    let o = sim_opts(s.k);
    let before = sim_before(&s.h, holder(&s.h), &s.f.in_tys(), &s.f.out_tys(), &o)?;
    let rw = rewriter(&s.rules)?;
    let circ = Circuit::new(s.h.clone());
    let rws = no_panic("get_rewrites", || rw.get_rewrites(&circ))?;
    let mut by: BTreeMap<BTreeSet<Node>, Vec<Ops>> = BTreeMap::new();
    for r in &rws {
        let repl = r.replacement();
        let rh = repl.hugr();
        let rops = ops(rh, rh.descendants(repl.parent()).filter(|n| *n != repl.parent()));
        by.entry(r.subgraph().nodes().iter().copied().collect()).or_default().push(plus(&rops, &BTreeMap::new(), 1));
    }
    c.nontrivial = !rws.is_empty();
    if rws.len() > 12 {
        c.label("many rewrites");
    }
    complete(&s, &rws, &by)?;
    for r in rws.iter().take(12) {
        alone(c, &s, r, &before, &o)?;
    }
    Ok(())
}
/// What the strategy says an operation costs, as a function of its name.
type CostFn = fn(&OpType) -> usize;
/// Constants that a rewrite leaves without use are no commands any more, so they cost nothing here.
pub fn free(o: &OpType) -> bool {
    matches!(o, OpType::Const(_) | OpType::LoadConstant(_))
}
fn one(o: &OpType) -> usize {
    !free(o) as usize
}
fn name_is(o: &OpType, xs: &[&str]) -> bool {
    let n = op_name(o);
    xs.iter().any(|x| n == format!("tket.quantum.{x}[]"))
}
fn two_q(o: &OpType) -> usize {
    name_is(o, &["CX", "CZ", "CY", "CRz"]) as usize
}
fn cx(o: &OpType) -> usize {
    name_is(o, &["CX"]) as usize
}
fn gate(o: &OpType) -> usize {
    name_is(o, &["H", "CX", "T", "S", "V", "X", "Y", "Z", "Tdg", "Sdg", "Vdg", "Rz", "Rx", "Toffoli", "Ry", "CZ", "CY", "CRz"]) as usize
}
fn rz(o: &OpType) -> usize {
    name_is(o, &["Rz"]) as usize
}
fn t_count(o: &OpType) -> usize {
    name_is(o, &["T", "Tdg"]) as usize * 3 + name_is(o, &["H"]) as usize
}
fn weights(o: &OpType) -> usize {
    let n = op_name(o);
    if free(o) {
        0
    } else {
        (crate::run::hash(&n) % 4) as usize
    }
}
/// Runs a strategy and compares every result with the circuit; returns the results' costs.
#[allow(clippy::too_many_arguments)]
fn strategy<S: RewriteStrategy>(
    c: &mut Case,
    what: &str,
    st: &S,
    s: &Setup,
    rws: &[CircuitRewrite],
    before: &Summary,
    o: &SimOpts,
    accept: &dyn Fn(&S::Cost, &S::Cost) -> bool,
    single: bool,
    price: &dyn Fn(&OpType) -> S::Cost,
) -> Res
where
    S::Cost: CircuitCost,
{
    let mut circ = Circuit::new(s.h.clone());
    let traced = c.src.flip();
    if traced {
        circ.enable_rewrite_tracing();
    }
    let cost = st.circuit_cost(&circ);
    // pre and post costs, counted here
    let sum = |h: &Hugr, ns: Vec<Node>| -> S::Cost { ns.into_iter().filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_))).map(|n| price(h.get_optype(n))).sum() };
    let whole = sum(&s.h, s.h.children(s.h.entrypoint()).filter(|n| !free(s.h.get_optype(*n))).collect());
    ensure!(cost == whole, format!("{what}: cost of the circuit"), "{cost:?} instead of {whole:?}");
    let mut accepted = vec![];
    for r in rws {
        let pre = sum(&s.h, r.subgraph().nodes().to_vec());
        let repl = r.replacement();
        let rh = repl.hugr().clone();
        let kids: Vec<Node> = rh.children(repl.parent()).collect();
        let post = sum(&rh, kids);
        if accept(&pre, &post) {
            accepted.push(post.sub_cost(&pre));
        }
    }
    let res: Vec<RewriteResult<S::Cost>> = no_panic(&format!("{what}: apply_rewrites"), || st.apply_rewrites(rws.to_vec(), &circ).collect())?;
    ensure!(res.len() == accepted.len(), format!("{what}: number of results"), "{} results, {} acceptable rewrites of {}", res.len(), accepted.len(), rws.len());
    if single {
        let mut a: Vec<_> = accepted.clone();
        let mut b: Vec<_> = res.iter().map(|r| r.cost_delta.clone()).collect();
        a.sort();
        b.sort();
        ensure!(a == b, format!("{what}: cost changes"), "{b:?} instead of {a:?}");
    }
    for (i, r) in res.iter().enumerate() {
        let h = r.circ.hugr();
        valid(h, what)?;
        let after = st.circuit_cost(&r.circ);
        let d = after.sub_cost(&cost);
        ensure!(d == r.cost_delta, format!("{what}: cost change"), "result {i}: reported {:?}, measured {d:?} ({cost:?} to {after:?})", r.cost_delta);
        ensure!(cost.add_delta(&r.cost_delta) == after, format!("{what}: add_delta"), "{cost:?} + {:?}", r.cost_delta);
        if traced {
            let n = r.circ.rewrite_trace().map(|t| t.count());
            ensure!(n == Some(1), format!("{what}: trace"), "{n:?}");
        }
        if i < 6 || i + 1 == res.len() {
            same_meaning(what, before, h, holder(h), &s.f.in_tys(), &s.f.out_tys(), o)?;
        }
    }
    Ok(())
}
fn strategies(c: &mut Case) -> Res {
    let s = setup(c, 5, 14);
    let o = sim_opts(s.k);
    let before = sim_before(&s.h, holder(&s.h), &s.f.in_tys(), &s.f.out_tys(), &o)?;
    let rw = rewriter(&s.rules)?;
    let circ = Circuit::new(s.h.clone());
    let mut rws = no_panic("get_rewrites", || rw.get_rewrites(&circ))?;
    if c.src.flip() {
        c.src.shuffle(&mut rws);
    }
    rws.truncate(40);
    let sets: HashSet<Vec<Node>> = rws.iter().map(|r| r.subgraph().nodes().to_vec()).collect();
    c.nontrivial = sets.len() >= 2;
    let coarse = |i: usize, n: [CostFn; 2]| n[i];
    let _ = coarse;
    let (f, fname): (CostFn, &str) = c.src.choose(&[(one as CostFn, "one"), (two_q, "two-qubit"), (t_count, "t-count"), (weights, "weights")]);
    let gamma = c.src.choose(&[0.5, 1.0, 1.0001, 1.5, 3.0]);
    let kind = c.src.below(10);
    c.label(["greedy", "cx greedy", "cx threshold", "rz greedy", "rz threshold", "gamma threshold", "gamma greedy", "cx gamma", "cx gamma given", "gamma default"][kind]);
    type Lex = tket::circuit::cost::LexicographicCost<usize, 2>;
    let cxs = |o: &OpType| Lex::from([cx(o), gate(o)]);
    let rzs = |o: &OpType| Lex::from([rz(o), gate(o)]);
    let gamma = if matches!(kind, 7 | 9) { 1.0001 } else { gamma };
    let lex = |a: &tket::circuit::cost::LexicographicCost<usize, 2>, b: &tket::circuit::cost::LexicographicCost<usize, 2>| b.as_usize() <= a.as_usize();
    let gam = |a: &usize, b: &usize| (*b as f64) < gamma * (*a as f64);
    match kind {
        0 => {
            let mut circ = Circuit::new(s.h.clone());
            let traced = c.src.flip();
            if traced {
                circ.enable_rewrite_tracing();
            }
            let b = circ.num_operations();
            ensure!(GreedyRewriteStrategy.circuit_cost(&circ) == b, "greedy: cost", "{b}");
            let res: Vec<_> = no_panic("greedy: apply_rewrites", || GreedyRewriteStrategy.apply_rewrites(rws.to_vec(), &circ).collect())?;
            ensure!(res.len() == 1, "greedy: number of results", "{}", res.len());
            let h = res[0].circ.hugr();
            valid(h, "greedy")?;
            let a = res[0].circ.num_operations();
            ensure!(a as isize - b as isize == res[0].cost_delta.as_isize(), "greedy: cost change", "reported {:?}, measured {b} to {a}", res[0].cost_delta);
            let can = rws.iter().any(|r| {
                let x = |h: &Hugr, ns: Vec<Node>| ns.into_iter().filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_))).filter(|n| counts(&op_name(h.get_optype(*n)))).count();
                let repl = r.replacement();
                let kids = repl.hugr().children(repl.parent()).collect();
                x(repl.hugr(), kids) < x(&s.h, r.subgraph().nodes().to_vec())
            });
            ensure!(if can { a < b } else { a == b }, "greedy: progress", "{b} to {a}, a rewrite decreases the count: {can}");
            if traced {
                let n = res[0].circ.rewrite_trace().map(|t| t.count()).unwrap_or(99);
                ensure!(if can { n >= 1 && n <= rws.len() } else { n == 0 }, "greedy: trace", "{n}");
            }
            same_meaning("greedy", &before, h, holder(h), &s.f.in_tys(), &s.f.out_tys(), &o)
        }
        1 => {
            let st = if c.src.flip() { LexicographicCostFunction::default_cx_strategy() } else { LexicographicCostFunction::default().into_greedy_strategy() };
            strategy(c, "cx greedy", &st, &s, &rws, &before, &o, &lex, false, &cxs)
        }
        2 => strategy(c, "cx threshold", &LexicographicCostFunction::cx_count().into_threshold_strategy(), &s, &rws, &before, &o, &lex, true, &cxs),
        3 => strategy(c, "rz greedy", &LexicographicCostFunction::rz_count().into_greedy_strategy(), &s, &rws, &before, &o, &lex, false, &rzs),
        4 => strategy(c, "rz threshold", &LexicographicCostFunction::rz_count().into_threshold_strategy(), &s, &rws, &before, &o, &lex, true, &rzs),
        5 => {
            let st = GammaStrategyCost::new(gamma, f);
            strategy(c, &format!("gamma threshold ({fname})"), &st, &s, &rws, &before, &o, &gam, true, &f)
        }
        7 => strategy(c, "cx gamma", &GammaStrategyCost::exhaustive_cx(), &s, &rws, &before, &o, &gam, true, &cx),
        8 => strategy(c, "cx gamma given", &GammaStrategyCost::exhaustive_cx_with_gamma(gamma), &s, &rws, &before, &o, &gam, true, &cx),
        9 => strategy(c, &format!("gamma default ({fname})"), &GammaStrategyCost::with_cost(f), &s, &rws, &before, &o, &gam, true, &f),
        _ => {
            let st: ExhaustiveGreedyStrategy<_> = GammaStrategyCost { gamma, op_cost: f }.into();
            strategy(c, &format!("gamma greedy ({fname})"), &st, &s, &rws, &before, &o, &gam, false, &f)
        }
    }
}
pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "the rewriter offers a rewrite (single), rewrites at two places (strategies)",
        assumptions: &["equivalence is taken up to a global phase"],
        suites: vec![Suite { name: "single", quick: 30000, thorough: 1000000, run: single }, Suite { name: "strategies", quick: 80000, thorough: 1000000, run: strategies }],
        hang_violation: Some(30),
    }
}
