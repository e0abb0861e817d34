//! C14: pattern matching against a brute-force search for occurrences.
use super::common::*;
use crate::ensure;
use crate::flat::*;
use crate::gen::Src;
use crate::hb::*;
use crate::run::*;
use hugr::ops::OpTrait;
use hugr::{HugrView, Node, PortIndex};
use std::collections::{BTreeMap, BTreeSet};
use tket::portmatching::{CircuitPattern, PatternMatch, PatternMatcher};
use tket::Circuit;

/// One way of laying a pattern over a circuit.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Occ {
    pub pid: usize,
    pub nodes: Vec<usize>,
    pub ins: Vec<Vec<(usize, usize)>>,
    pub outs: Vec<(usize, usize)>,
}
/// All occurrences; the flag says that the occurrence must be found (otherwise it may be).
pub fn occurrences(pid: usize, p: &Flat, c: &Flat, most: usize) -> Option<Vec<(Occ, bool, Vec<usize>)>> {
    struct S<'a> {
        p: &'a Flat,
        c: &'a Flat,
        pu: Uses,
        cu: Uses,
        pid: usize,
        out: Vec<(Occ, bool, Vec<usize>)>,
        steps: usize,
    }
    // order in which the pattern's operations are placed: connected ones next to each other
    fn go(s: &mut S, order: &[usize], i: usize, img: &mut Vec<usize>, bound: &mut Vec<Option<usize>>) -> bool {
        s.steps += 1;
        if s.steps > 20000 {
            return false;
        }
        if i == order.len() {
            finish(s, img, bound);
            return true;
        }
        let v = order[i];
        for x in 0..s.c.nodes.len() {
            if img.contains(&x) || s.c.nodes[x].key != s.p.nodes[v].key {
                continue;
            }
            // wires bind to wires; the same pattern wire always to the same circuit wire
            let pairs: Vec<(usize, usize)> =
                s.p.nodes[v].ins.iter().copied().zip(s.c.nodes[x].ins.iter().copied()).chain(s.p.nodes[v].outs.iter().copied().zip(s.c.nodes[x].outs.iter().copied())).collect();
            let saved = bound.clone();
            let mut ok = true;
            for (a, b) in pairs {
                match bound[a] {
                    Some(y) => ok &= y == b,
                    None => bound[a] = Some(b),
                }
            }
            if ok {
                img[v] = x;
                if !go(s, order, i + 1, img, bound) {
                    return false;
                }
                img[v] = usize::MAX;
            }
            *bound = saved;
        }
        true
    }
    fn finish(s: &mut S, img: &[usize], bound: &[Option<usize>]) {
        let (p, c) = (s.p, s.c);
        let inside = |x: usize| img.contains(&x);
        let mut must = true;
        // inputs come from outside
        let mut seen = BTreeSet::new();
        for w in &p.ins {
            let Some(b) = bound[*w] else {
                must = false; // input that nothing uses
                continue;
            };
            if s.cu.maker[b].is_some_and(|m| inside(m.0)) {
                return;
            }
            if !seen.insert(b) {
                must = false; // two inputs from one wire
            }
        }
        let mut outs_seen = BTreeSet::new();
        for w in &p.outs {
            if !outs_seen.insert(*w) || s.pu.maker[*w].is_none() {
                must = false; // an output twice, or an input as output
            }
        }
        for (v, n) in p.nodes.iter().enumerate() {
            for (q, w) in n.outs.iter().enumerate() {
                let b = c.nodes[img[v]].outs[q];
                let mut other = 0;
                for (x, port) in &s.cu.users[b] {
                    let by_pattern = s.pu.users[*w].iter().any(|(u, up)| *u < p.nodes.len() && img[*u] == *x && up == port);
                    if !by_pattern {
                        other += 1;
                    }
                }
                if p.outs.contains(w) {
                    if other == 0 {
                        must = false; // a result of the pattern that the circuit drops
                    }
                } else if other > 0 {
                    return;
                }
            }
        }
        let mut nodes = img.to_vec();
        nodes.sort();
        if !convex(c, &nodes) {
            return;
        }
        let ins = p
            .ins
            .iter()
            .map(|w| {
                let mut v: Vec<(usize, usize)> = s.pu.users[*w].iter().filter(|x| x.0 < p.nodes.len()).map(|(u, q)| (img[*u], *q)).collect();
                v.sort();
                v
            })
            .collect();
        let outs = p.outs.iter().map(|w| s.pu.maker[*w].map_or((usize::MAX, 0), |(u, q)| (img[u], q))).collect();
        s.out.push((Occ { pid: s.pid, nodes, ins, outs }, must, img.to_vec()));
    }
    let pu = p.uses();
    let mut order: Vec<usize> = vec![];
    while order.len() < p.nodes.len() {
        let next = (0..p.nodes.len())
            .filter(|i| !order.contains(i))
            .max_by_key(|i| {
                let n = &p.nodes[*i];
                (n.ins.iter().chain(&n.outs).filter(|w| order.iter().any(|j| p.nodes[*j].ins.contains(w) || p.nodes[*j].outs.contains(w))).count(), usize::MAX - i)
            })
            .unwrap();
        order.push(next);
    }
    let mut s = S { p, c, pu, cu: c.uses(), pid, out: vec![], steps: 0 };
    let ok = go(&mut s, &order, 0, &mut vec![usize::MAX; p.nodes.len()], &mut vec![None; p.tys.len()]);
    (ok && s.out.len() <= most).then_some(s.out)
}

fn kind(src: &mut Src) -> Kind {
    src.choose(&[Kind::Tiny, Kind::Clifford, Kind::Clifford, Kind::Rot, Kind::Classical, Kind::All])
}
/// A pattern that is likely to occur in the circuit.
pub fn pattern(src: &mut Src, k: Kind, f: &Flat) -> Flat {
    drop_consts(pattern0(src, k, f))
}
fn pattern0(src: &mut Src, k: Kind, f: &Flat) -> Flat {
    if f.nodes.is_empty() || src.chance(1, 5) {
        let nq = src.range(1, 3);
        return flat(src, k, nq, 4);
    }
    let most = src.range(1, 5);
    let mut set = cluster(src, f, most, true);
    if src.chance(3, 4) {
        close(f, &mut set);
    }
    let mut p = f.extract(&set, Some(src)).normal();
    let u = p.uses();
    match src.below(9) {
        // something else at one place
        0 => {
            let i = src.below(p.nodes.len());
            let FOp::Op(o) = &p.nodes[i].op else { return p };
            let sg = o.dataflow_signature().unwrap().into_owned();
            let same: Vec<_> = catalogue(k).into_iter().filter(|o| o.dataflow_signature().unwrap().into_owned() == sg).collect();
            if same.is_empty() {
                return p;
            }
            let o = src.choose(&same);
            let mut g = Flat::default();
            g.tys = vec![t_q(); 10];
            g.op(o, &[0; 0]);
            let n = g.nodes.pop().unwrap();
            p.nodes[i].op = n.op;
            p.nodes[i].key = n.key;
        }
        // two uses swapped
        1 => {
            let (i, j) = (src.below(p.nodes.len()), src.below(p.nodes.len()));
            let ins: Vec<(usize, usize)> = (0..p.nodes[i].ins.len()).flat_map(|a| (0..p.nodes[j].ins.len()).map(move |b| (a, b))).filter(|(a, b)| p.tys[p.nodes[i].ins[*a]] == p.tys[p.nodes[j].ins[*b]]).collect();
            if let Some((a, b)) = (!ins.is_empty()).then(|| src.choose(&ins)) {
                let (x, y) = (p.nodes[i].ins[a], p.nodes[j].ins[b]);
                let ready = |w: usize, n: usize| u.maker[w].is_none_or(|m| m.0 < n);
                if ready(x, j) && ready(y, i) {
                    p.nodes[i].ins[a] = y;
                    p.nodes[j].ins[b] = x;
                }
            }
        }
        // an intermediate copyable value is also a result, or a result is not
        2 => {
            let cp: Vec<usize> = p.nodes.iter().flat_map(|n| n.outs.clone()).filter(|w| !linear(&p.tys[*w])).collect();
            if !cp.is_empty() {
                let w = src.choose(&cp);
                if p.outs.contains(&w) {
                    p.outs.retain(|x| *x != w);
                } else {
                    p.outs.push(w);
                }
            }
        }
        // an input split in two
        3 => {
            let cp: Vec<(usize, usize)> = (0..p.nodes.len()).flat_map(|i| (0..p.nodes[i].ins.len()).map(move |j| (i, j))).filter(|(i, j)| !linear(&p.tys[p.nodes[*i].ins[*j]])).collect();
            if !cp.is_empty() {
                let (i, j) = src.choose(&cp);
                let t = p.tys[p.nodes[i].ins[j]].clone();
                let w = p.input(t);
                p.nodes[i].ins[j] = w;
            }
        }
        // another constant
        4 => {
            for n in p.nodes.iter_mut().filter(|n| matches!(n.op, FOp::Const(_))) {
                let v = if p.tys[n.outs[0]] == t_r() { c_r(*src.pick(&[0.25, 0.5, 1.0])) } else { c_b(src.flip()) };
                n.key = format!("{v:?}");
                n.op = FOp::Const(v);
            }
        }
        _ => {}
    }
    p.normal()
}
/// Removes constants that nothing uses (they are no operations of the circuit).
fn drop_consts(mut p: Flat) -> Flat {
    let u = p.uses();
    p.nodes.retain(|n| !matches!(n.op, FOp::Const(_)) || !u.users[n.outs[0]].is_empty());
    p.normal()
}
/// Does every operation lead to a result, or is it connected by linear wires to one that does or takes an input?
pub fn bounded(p: &Flat) -> bool {
    if p.ins.is_empty() && p.outs.is_empty() {
        return true;
    }
    let u = p.uses();
    let n = p.nodes.len();
    let mut seen: Vec<bool> = p.nodes.iter().map(|x| x.ins.iter().any(|w| u.maker[*w].is_none()) || x.outs.iter().any(|w| p.outs.contains(w))).collect();
    loop {
        let mut more = vec![];
        for (_, x) in p.nodes.iter().enumerate().filter(|x| seen[x.0]) {
            more.extend(x.ins.iter().filter_map(|w| u.maker[*w]).map(|m| m.0));
            more.extend(x.outs.iter().filter(|w| linear(&p.tys[**w])).flat_map(|w| u.users[*w].iter()).map(|m| m.0));
        }
        more.retain(|j| *j < n && !seen[*j]);
        if more.is_empty() {
            return seen.iter().all(|x| *x);
        }
        more.iter().for_each(|j| seen[*j] = true);
    }
}
/// Does walking along the wires (copied values only backwards) reach every operation from some operation?
pub fn rooted(p: &Flat) -> bool {
    let u = p.uses();
    (0..p.nodes.len()).any(|r| {
        let mut seen = vec![false; p.nodes.len()];
        let mut todo = vec![r];
        seen[r] = true;
        while let Some(i) = todo.pop() {
            let back = p.nodes[i].ins.iter().filter_map(|w| u.maker[*w]).map(|x| x.0);
            let fore = p.nodes[i].outs.iter().filter(|w| linear(&p.tys[**w])).flat_map(|w| u.users[*w].iter()).map(|x| x.0).filter(|x| *x < p.nodes.len());
            for j in back.chain(fore) {
                if !seen[j] {
                    seen[j] = true;
                    todo.push(j);
                }
            }
        }
        seen.into_iter().all(|x| x)
    })
}
fn view(m: &PatternMatch, back: &BTreeMap<Node, usize>) -> Result<Occ, String> {
    let at = |n: &Node| back.get(n).copied().ok_or_else(|| format!("{n} is not an operation of the circuit"));
    let mut nodes = m.nodes().iter().map(at).collect::<Result<Vec<_>, _>>()?;
    nodes.sort();
    nodes.dedup(); // a constant and its load
    let mut ins = vec![];
    for ps in m.subgraph().incoming_ports() {
        let mut v = ps.iter().map(|(n, p)| Ok((at(n)?, p.index()))).collect::<Result<Vec<_>, String>>()?;
        v.sort();
        ins.push(v);
    }
    let outs = m.subgraph().outgoing_ports().iter().map(|(n, p)| Ok((at(n)?, p.index()))).collect::<Result<Vec<_>, String>>()?;
    Ok(Occ { pid: m.pattern_id().0, nodes, ins, outs })
}
fn matching(c: &mut Case) -> Res {
    let k = kind(&mut c.src);
    let (nq, most) = (c.src.range(1, 4), c.src.range(2, 12));
    let f = flat(&mut c.src, k, nq, most);
    let shape = c.src.below(4);
    let (h, at) = f.build(shape);
    must_validate(&h, "generated circuit");
    let circ = Circuit::new(h);
    let n = c.src.range(1, 5);
    let mut pats: Vec<Flat> = vec![];
    for _ in 0..n {
        pats.push(pattern(&mut c.src, k, &f));
    }
    if c.src.chance(1, 8) {
        let p = c.src.choose(&pats);
        pats.push(p);
    }
    c.describe(|| format!("shape {shape}\ncircuit {f:?}\npatterns {pats:?}"));
    c.label(format!("{k:?}"));
    let mut good: Vec<Flat> = vec![];
    let mut built = vec![];
    let mut sure = vec![];
    for p in &pats {
        let ps = c.src.below(4);
        let (ph, _) = p.build(ps);
        must_validate(&ph, "generated pattern");
        let pc = Circuit::new(ph);
        let r = no_panic("CircuitPattern::try_from_circuit", || CircuitPattern::try_from_circuit(&pc))?;
        let u = p.uses();
        let wire = p.outs.iter().any(|w| u.maker[*w].is_none());
        match r {
            Ok(x) => {
                ensure!(!p.nodes.is_empty(), "pattern", "an empty circuit is accepted as a pattern");
                ensure!(!wire, "pattern", "a pattern with an empty wire is accepted");
                good.push(p.clone());
                let consts = p.nodes.iter().any(|n| matches!(n.op, FOp::Const(_)));
                sure.push(bounded(p) && !(consts && (shape == 3 || ps == 3)));
                built.push(x);
            }
            Err(e) => {
                c.label(format!("pattern {}", kind_of(&format!("{e:?}"))));
                let why = kind_of(&format!("{e:?}"));
                let ok = match why.as_str() {
                    // constants and Noops do not count as operations
                    "EmptyCircuit" => p.nodes.iter().all(|n| matches!(n.op, FOp::Const(_)) || n.key.starts_with("prelude.Noop")),
                    "NotConnected" => !rooted(p),
                    "EmptyWire" => wire,
                    "DuplicatedOutput" => p.outs.iter().collect::<BTreeSet<_>>().len() < p.outs.len(),
                    "UnusedInput" => p.ins.iter().any(|w| u.users[*w].is_empty()),
                    _ => false,
                };
                ensure!(ok, format!("pattern rejected as {why}"), "{p:?}");
            }
        }
    }
    if good.is_empty() {
        return Err(Stop::Discard("no usable pattern"));
    }
    let matcher = no_panic("PatternMatcher::from_patterns", || PatternMatcher::from_patterns(built.clone()))?;
    ensure!(matcher.n_patterns() == good.len(), "n_patterns", "{}", matcher.n_patterns());
    let mut must = BTreeSet::new();
    let mut may = BTreeMap::new();
    let mut maps: BTreeMap<Occ, BTreeSet<Vec<usize>>> = BTreeMap::new();
    for (i, p) in good.iter().enumerate() {
        let Some(os) = occurrences(i, p, &f, 400) else { return Err(Stop::Discard("too many occurrences")) };
        for (o, m, img) in os {
            if m && sure[i] {
                must.insert(o.clone());
            }
            *may.entry(o.clone()).or_insert(0) += 1;
            maps.entry(o).or_default().insert(img);
        }
    }
    c.fingerprint(&format!("{f:?}{good:?}"));
    c.nontrivial = must.len() >= 2;
    let mut back: BTreeMap<Node, usize> = at.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    for (i, n) in at.iter().enumerate() {
        if matches!(f.nodes[i].op, FOp::Const(_)) {
            back.extend(circ.hugr().input_neighbours(*n).map(|m| (m, i)));
        }
    }
    let ms = no_panic("find_matches", || matcher.find_matches(&circ))?;
    if c.src.chance(1, 8) {
        // the patterns are told by their number, the matches come one by one as well
        for (i, b) in built.iter().enumerate() {
            ensure!(matcher.get_pattern(i.into()).is_some_and(|p| p.n_edges() == b.n_edges() && at.iter().all(|r| p.get_match_map(*r, &circ) == b.get_match_map(*r, &circ))), "get_pattern", "{i}");
        }
        ensure!(matcher.get_pattern(built.len().into()).is_none(), "get_pattern", "one more than there are");
        let it = no_panic("find_matches_iter", || matcher.find_matches_iter(&circ).map(|m| (m.pattern_id(), m.root(), m.nodes().to_vec())).collect::<Vec<_>>())?;
        let all: Vec<_> = ms.iter().map(|m| (m.pattern_id(), m.root(), m.nodes().to_vec())).collect();
        ensure!(it == all, "find_matches_iter", "{it:?} {all:?}");
        // a match replaced by its own pattern leaves the same circuit
        if let Some(m) = (!ms.is_empty()).then(|| c.src.pick(&ms).clone()) {
            let p = &good[m.pattern_id().0];
            let o = view(&m, &back).ok();
            let shape = c.src.below(3);
            let (ph, _) = p.build(shape);
            if o.as_ref().is_some_and(|o| must.contains(o)) {
                c.label("replaced by the pattern");
                let rw = match no_panic("to_rewrite", || m.to_rewrite(&circ, Circuit::new(ph)))? {
                    Ok(rw) => rw,
                    Err(e) => return fail("a match cannot be replaced by its pattern", format!("{e:?}")),
                };
                let o = super::c15::sim_opts(k);
                let holder = super::c15::holder(circ.hugr());
                let before = sim_before(circ.hugr(), holder, &f.in_tys(), &f.out_tys(), &o)?;
                let mut after = Circuit::new(circ.hugr().clone());
                let r = no_panic("apply", || rw.apply(&mut after))?;
                ensure!(r.is_ok(), "a match cannot be replaced by its pattern", "{:?}", r.err());
                valid(after.hugr(), "match replaced by its pattern")?;
                ensure!(after.num_operations() == circ.num_operations(), "match replaced by its pattern: operations", "{} {}", after.num_operations(), circ.num_operations());
                same_meaning("match replaced by its pattern", &before, after.hugr(), super::c15::holder(after.hugr()), &f.in_tys(), &f.out_tys(), &o)?;
            }
        }
    }
    let mut got: BTreeMap<Occ, usize> = BTreeMap::new();
    for m in &ms {
        let o = match view(m, &back) {
            Ok(o) => o,
            Err(e) => return fail("match covers something else", e),
        };
        ensure!(may.contains_key(&o), "a match that is no occurrence", "{o:?}");
        ensure!(o.nodes.contains(&back[&m.root()]), "root of a match", "{:?}", m.root());
        *got.entry(o).or_insert(0) += 1;
    }
    for o in &must {
        if !got.contains_key(o) {
            return fail("an occurrence is missed", format!("{o:?}"));
        }
    }
    for (o, n) in &got {
        ensure!(*n <= may[o], "an occurrence is reported twice", "{o:?}");
    }
    if must.len() < may.len() {
        c.label("undecided occurrences");
    }
    // the rooted search sees the same
    let mut by_root: BTreeMap<Occ, usize> = BTreeMap::new();
    for (pid, p) in good.iter().enumerate() {
        for r in &at {
            let m = no_panic("try_from_root_match", || PatternMatch::try_from_root_match(*r, pid.into(), &circ, &matcher))?;
            let map = no_panic("get_match_map", || built[pid].get_match_map(*r, &circ))?;
            if let Some(map) = &map {
                let want = p.nodes.len() + p.nodes.iter().filter(|n| matches!(n.op, FOp::Const(_))).count();
                ensure!(map.len() == want, "match map", "{} operations for {want}", map.len());
            }
            if let Ok(m) = m {
                let o = match view(&m, &back) {
                    Ok(o) => o,
                    Err(e) => return fail("match covers something else", e),
                };
                ensure!(m.root() == *r, "root of a match", "{:?} instead of {r:?}", m.root());
                ensure!(may.contains_key(&o), "a rooted match that is no occurrence", "{o:?}");
                ensure!(map.is_some(), "match map", "none for a match");
                let g = m.subgraph();
                if !(g.incoming_ports().is_empty() && g.outgoing_ports().is_empty()) {
                    let (i, o2) = (g.incoming_ports().to_vec(), g.outgoing_ports().to_vec());
                    match no_panic("try_from_io", || PatternMatch::try_from_io(*r, pid.into(), &circ, i, o2))? {
                        Ok(x) => ensure!(view(&x, &back).ok().as_ref() == Some(&o) && x.root() == *r && x.pattern_id() == m.pattern_id(), "try_from_io", "another match: {x:?} instead of {m:?}"),
                        Err(e) => return fail("try_from_io", format!("{e} for {m:?}")),
                    }
                }
                *by_root.entry(o).or_insert(0) += 1;
            }
        }
    }
    ensure!(got == by_root, "rooted and global search", "{got:?}\n{by_root:?}");
    // after saving and loading
    let mut buf = vec![];
    if let Err(e) = matcher.save_binary_io(&mut buf) {
        return fail("matcher: saving", e.to_string());
    }
    let again = match no_panic("load_binary_io", || PatternMatcher::load_binary_io(&mut buf.as_slice()))? {
        Ok(m) => m,
        Err(e) => return fail("matcher: loading what was saved", e.to_string()),
    };
    let list = |ms: &[PatternMatch]| ms.iter().map(|m| (m.root(), view(m, &back).ok())).collect::<Vec<_>>();
    let ms2 = no_panic("find_matches after loading", || again.find_matches(&circ))?;
    let (mut a, mut b) = (list(&ms), list(&ms2));
    a.sort();
    b.sort();
    ensure!(a == b, "matcher: different after loading", "{a:?}\n{b:?}");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "at least two occurrences that have to be found",
        assumptions: &["an occurrence that drops a result of the pattern, feeds two pattern inputs from one wire, or has unused pattern inputs may be reported or not"],
        suites: vec![Suite { name: "matching", quick: 240000, thorough: 6000000, run: matching }],
        hang_violation: Some(30),
    }
}
