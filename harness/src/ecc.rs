//! Classes of equivalent flat circuits, from a table of small unitaries and from written-down identities.
use crate::flat::*;
use crate::gen::Src;
use crate::hb::*;
use hugr::types::Type;
use std::collections::HashMap;
use std::sync::OnceLock;

type C = (f64, f64);
fn mul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
pub type Gate = (&'static str, Vec<usize>);
/// Applies a gate to every column of a matrix (rows are basis states, qubit 0 the lowest bit).
fn apply(g: &Gate, n: usize, m: &mut [Vec<C>]) {
    let r = 0.5f64.sqrt();
    let s = std::f64::consts::FRAC_PI_4;
    let d = 1 << n;
    let u: [[C; 2]; 2] = match g.0 {
        "H" => [[(r, 0.), (r, 0.)], [(r, 0.), (-r, 0.)]],
        "X" | "CX" => [[(0., 0.), (1., 0.)], [(1., 0.), (0., 0.)]],
        "Y" | "CY" => [[(0., 0.), (0., -1.)], [(0., 1.), (0., 0.)]],
        "Z" | "CZ" => [[(1., 0.), (0., 0.)], [(0., 0.), (-1., 0.)]],
        "S" => [[(1., 0.), (0., 0.)], [(0., 0.), (0., 1.)]],
        "Sdg" => [[(1., 0.), (0., 0.)], [(0., 0.), (0., -1.)]],
        "T" => [[(1., 0.), (0., 0.)], [(0., 0.), (s.cos(), s.sin())]],
        "Tdg" => [[(1., 0.), (0., 0.)], [(0., 0.), (s.cos(), -s.sin())]],
        _ => unreachable!(),
    };
    let (ctl, t) = if g.1.len() == 2 { (Some(g.1[0]), g.1[1]) } else { (None, g.1[0]) };
    for i in 0..d {
        if i >> t & 1 == 1 || ctl.is_some_and(|c| i >> c & 1 == 0) {
            continue;
        }
        let j = i | 1 << t;
        for k in 0..d {
            let (a, b) = (m[i][k], m[j][k]);
            let x = |r: usize| {
                let (p, q) = (mul(u[r][0], a), mul(u[r][1], b));
                (p.0 + q.0, p.1 + q.1)
            };
            (m[i][k], m[j][k]) = (x(0), x(1));
        }
    }
}
/// The matrix up to phase, after sending qubit i to output perm[i].
fn key(n: usize, m: &[Vec<C>], perm: &[usize]) -> Vec<i32> {
    let d = 1 << n;
    let mut rows = vec![0; d];
    for i in 0..d {
        rows[(0..n).map(|b| (i >> b & 1) << perm[b]).sum::<usize>()] = i;
    }
    let all: Vec<C> = rows.iter().flat_map(|r| m[*r].clone()).collect();
    let f = all.iter().find(|x| x.0 * x.0 + x.1 * x.1 > 1e-6).unwrap();
    let l = (f.0 * f.0 + f.1 * f.1).sqrt();
    let ph = (f.0 / l, -f.1 / l);
    all.iter().map(|x| mul(*x, ph)).flat_map(|x| [(x.0 * 1e4).round() as i32, (x.1 * 1e4).round() as i32]).collect()
}
#[derive(Clone, Debug)]
pub struct Seq {
    pub n: usize,
    pub gates: Vec<Gate>,
    pub perm: Vec<usize>,
}
impl Seq {
    pub fn flat(&self) -> Flat {
        let mut f = Flat::default();
        let mut w: Vec<usize> = (0..self.n).map(|_| f.input(t_q())).collect();
        for (g, qs) in &self.gates {
            let ins: Vec<usize> = qs.iter().map(|i| w[*i]).collect();
            for (i, o) in qs.iter().zip(f.op(q(g), &ins)) {
                w[*i] = o;
            }
        }
        f.outs = vec![0; self.n];
        for (i, x) in w.iter().enumerate() {
            f.outs[self.perm[i]] = *x;
        }
        f.normal()
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    match n {
        1 => vec![vec![0]],
        2 => vec![vec![0, 1], vec![1, 0]],
        _ => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]],
    }
}
fn table(n: usize) -> &'static Vec<Vec<Seq>> {
    static T: [OnceLock<Vec<Vec<Seq>>>; 4] = [const { OnceLock::new() }; 4];
    T[n].get_or_init(|| {
        let (one, two, most): (&[&str], &[&str], usize) = match n {
            1 => (&["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg"], &[], 4),
            2 => (&["H", "X", "Z", "S", "T"], &["CX", "CZ"], 4),
            _ => (&["H", "X", "T"], &["CX", "CZ"], 3),
        };
        let mut gates: Vec<Gate> = vec![];
        for q in 0..n {
            gates.extend(one.iter().map(|g| (*g, vec![q])));
            for r in 0..n {
                gates.extend(two.iter().filter(|g| r != q && (**g == "CX" || r > q)).map(|g| (*g, vec![q, r])));
            }
        }
        let id: Vec<Vec<C>> = (0..1 << n).map(|i| (0..1 << n).map(|j| (if i == j { 1. } else { 0. }, 0.)).collect()).collect();
        let mut level: Vec<(Vec<Gate>, Vec<Vec<C>>)> = vec![(vec![], id)];
        let mut buckets: HashMap<Vec<i32>, Vec<Seq>> = HashMap::new();
        for l in 0..=most {
            for (gs, m) in &level {
                for p in perms(n) {
                    // a permutation of untouched wires only is uninteresting
                    if n == 3 && l < 2 && p != vec![0, 1, 2] {
                        continue;
                    }
                    let b = buckets.entry(key(n, m, &p)).or_default();
                    if b.len() < 40 {
                        b.push(Seq { n, gates: gs.clone(), perm: p });
                    }
                }
            }
            if l < most {
                level = level
                    .iter()
                    .flat_map(|(gs, m)| {
                        gates.iter().map(move |g| {
                            let mut m = m.clone();
                            apply(g, n, &mut m);
                            let mut gs = gs.clone();
                            gs.push(g.clone());
                            (gs, m)
                        })
                    })
                    .collect();
            }
        }
        let mut v: Vec<(Vec<i32>, Vec<Seq>)> = buckets.into_iter().filter(|b| b.1.len() > 1).collect();
        v.sort_by(|a, b| (a.1.iter().map(|s| s.gates.len()).sum::<usize>(), &a.0).cmp(&(b.1.iter().map(|s| s.gates.len()).sum::<usize>(), &b.0)));
        v.into_iter().map(|b| b.1).collect()
    })
}
/// Some circuits with the same unitary.
pub fn unitary_class(src: &mut Src, n: usize) -> Vec<Flat> {
    let t = table(n);
    let b = src.choose(t);
    let k = src.range(2, 4.min(b.len()));
    let mut at: Vec<usize> = vec![];
    for _ in 0..k {
        // short ones are first
        let i = src.below(b.len());
        let i = if src.flip() { src.below(i + 1) } else { i };
        if !at.contains(&i) {
            at.push(i);
        }
    }
    if at.len() < 2 {
        at = vec![0, 1];
    }
    at.into_iter().map(|i| b[i].flat()).collect()
}
struct B {
    f: Flat,
}
impl B {
    fn new(tys: &[Type]) -> (Self, Vec<usize>) {
        let mut f = Flat::default();
        let w = tys.iter().map(|t| f.input(t.clone())).collect();
        (B { f }, w)
    }
    fn g(&mut self, name: &str, ins: &[usize]) -> Vec<usize> {
        self.f.op(q(name), ins)
    }
    fn x(&mut self, ext: &str, name: &str, ins: &[usize]) -> usize {
        self.f.op(xop(ext, name, &[]), ins)[0]
    }
    fn r(&mut self, x: f64) -> usize {
        self.f.constant(c_r(x))
    }
    fn done(mut self, outs: &[usize]) -> Flat {
        self.f.outs = outs.to_vec();
        self.f.normal()
    }
}
/// Identities with rotations.
pub fn rotation_class(src: &mut Src) -> Vec<Flat> {
    let (q_, r_) = (t_q(), t_r());
    let angle = |s: &mut Src| *s.pick(&[0.25, 0.5, 1.0, 0.0]);
    match src.below(10) {
        0 => {
            let ax = src.choose(&["Rz", "Rx", "Ry"]);
            let tys = [q_, r_.clone(), r_];
            let mut v = vec![];
            for k in 0..4 {
                let (mut b, w) = B::new(&tys);
                let o = match k {
                    0 => {
                        let x = b.g(ax, &[w[0], w[1]])[0];
                        b.g(ax, &[x, w[2]])[0]
                    }
                    1 => {
                        let x = b.g(ax, &[w[0], w[2]])[0];
                        b.g(ax, &[x, w[1]])[0]
                    }
                    2 => {
                        let s = b.x("tket.rotation", "radd", &[w[1], w[2]]);
                        b.g(ax, &[w[0], s])[0]
                    }
                    _ => {
                        let s = b.x("tket.rotation", "radd", &[w[2], w[1]]);
                        b.g(ax, &[w[0], s])[0]
                    }
                };
                v.push(b.done(&[o]));
            }
            let i = src.below(4);
            v.remove(i);
            v
        }
        1 => {
            let ax = src.choose(&["Rz", "Rx"]);
            let (x, y) = (angle(src), angle(src));
            let mut v = vec![];
            for k in 0..3 {
                let (mut b, w) = B::new(&[t_q()]);
                let o = match k {
                    0 => {
                        let c = b.r(x);
                        let a = b.g(ax, &[w[0], c])[0];
                        let d = b.r(y);
                        b.g(ax, &[a, d])[0]
                    }
                    1 => {
                        let c = b.r(x + y);
                        b.g(ax, &[w[0], c])[0]
                    }
                    _ => {
                        let c = b.r(x);
                        let d = b.r(y);
                        let s = b.x("tket.rotation", "radd", &[c, d]);
                        b.g(ax, &[w[0], s])[0]
                    }
                };
                v.push(b.done(&[o]));
            }
            v
        }
        2 => {
            let (ax, x, g) = src.choose(&[("Rz", 0.25, "T"), ("Rz", 0.5, "S"), ("Rz", 1.0, "Z"), ("Rx", 1.0, "X"), ("Ry", 1.0, "Y")]);
            let (mut b, w) = B::new(&[t_q()]);
            let c = b.r(x);
            let o = b.g(ax, &[w[0], c]);
            let (mut d, w) = B::new(&[t_q()]);
            let p = d.g(g, &[w[0]]);
            vec![b.done(&o), d.done(&p)]
        }
        // a zero rotation is nothing
        3 => {
            let ax = src.choose(&["Rz", "Rx"]);
            let (mut b, w) = B::new(&[t_q()]);
            let c = b.r(0.0);
            let o = b.g(ax, &[w[0], c]);
            let (d, w) = B::new(&[t_q()]);
            vec![b.done(&o), d.done(&w)]
        }
        // rotations commute with controls
        4 | 5 => {
            let (ax, at, g) = src.choose(&[("Rz", 0, "CX"), ("Rx", 1, "CX"), ("Rz", 0, "CZ"), ("Rz", 1, "CZ")]);
            let mut v = vec![];
            for k in 0..2 {
                let (mut b, mut w) = B::new(&[t_q(), t_r(), t_q()]);
                for s in [k, 1 - k] {
                    if s == 0 {
                        let i = 2 * at;
                        w[i] = b.g(ax, &[w[i], w[1]])[0];
                    } else {
                        let o = b.g(g, &[w[0], w[2]]);
                        (w[0], w[2]) = (o[0], o[1]);
                    }
                }
                v.push(b.done(&[w[0], w[2]]));
            }
            v
        }
        // the same angle on two qubits
        6 => {
            let ax = src.choose(&["Rz", "Rx"]);
            let mut v = vec![];
            for k in 0..2 {
                let (mut b, w) = B::new(&[t_q(), t_q(), t_r()]);
                let (i, j) = (k, 1 - k);
                let x = b.g(ax, &[w[i], w[2]])[0];
                let y = b.g("CZ", &[if i == 0 { x } else { w[0] }, if i == 1 { x } else { w[1] }]);
                let z = b.g("CZ", &y);
                let mut o = z.clone();
                o[j] = b.g(ax, &[z[j], w[2]])[0];
                v.push(b.done(&o));
            }
            v
        }
        // conjugation
        7 => {
            let (a, z) = src.choose(&[("Rz", "Rx"), ("Rx", "Rz")]);
            let (mut b, w) = B::new(&[t_q(), t_r()]);
            let x = b.g("H", &[w[0]]);
            let y = b.g(a, &[x[0], w[1]]);
            let o = b.g("H", &y);
            let (mut d, w) = B::new(&[t_q(), t_r()]);
            let p = d.g(z, &[w[0], w[1]]);
            vec![b.done(&o), d.done(&p)]
        }
        // an angle that does not matter
        8 => {
            let mut v = vec![];
            for k in 0..2 {
                let (mut b, w) = B::new(&[t_q(), t_r(), t_r()]);
                let mut x = w[0];
                if k == 0 {
                    x = b.g("X", &[x])[0];
                    x = b.g("X", &[x])[0];
                }
                let o = b.g("Rz", &[x, w[2]]);
                v.push(b.done(&o));
            }
            v
        }
        _ => {
            let (mut b, w) = B::new(&[t_r(), t_r()]);
            let x = b.x("tket.rotation", "radd", &[w[0], w[1]]);
            let (mut d, u) = B::new(&[t_r(), t_r()]);
            let y = d.x("tket.rotation", "radd", &[u[1], u[0]]);
            vec![b.done(&[x]), d.done(&[y])]
        }
    }
}
/// Identities with measurements, allocation and logic.
pub fn classical_class(src: &mut Src) -> Vec<Flat> {
    let b_ = t_b();
    let two = [b_.clone(), b_.clone()];
    match src.below(9) {
        0 => {
            let g = src.choose(&["And", "Or"]);
            [(0, 1), (1, 0)]
                .iter()
                .map(|(i, j)| {
                    let (mut b, w) = B::new(&two);
                    let o = b.x("logic", g, &[w[*i], w[*j]]);
                    b.done(&[o])
                })
                .collect()
        }
        // double negation is an empty wire
        1 => {
            let (mut b, w) = B::new(&two[..1]);
            let x = b.x("logic", "Not", &w);
            let o = b.x("logic", "Not", &[x]);
            let (d, w) = B::new(&two[..1]);
            vec![b.done(&[o]), d.done(&w)]
        }
        2 => {
            let g = src.choose(&["And", "Or"]);
            let (mut b, w) = B::new(&two[..1]);
            let o = b.x("logic", g, &[w[0], w[0]]);
            let (d, w) = B::new(&two[..1]);
            vec![b.done(&[o]), d.done(&w)]
        }
        // excluded middle
        3 => {
            let (mut b, w) = B::new(&two[..1]);
            let n = b.x("logic", "Not", &w);
            let or = src.flip();
            let o = b.x("logic", if or { "Or" } else { "And" }, &[w[0], n]);
            let (mut d, _) = B::new(&two[..1]);
            let c = d.f.constant(c_b(or));
            vec![b.done(&[o]), d.done(&[c])]
        }
        // de Morgan
        4 => {
            let (mut b, w) = B::new(&two);
            let x = b.x("logic", "And", &w);
            let o = b.x("logic", "Not", &[x]);
            let (mut d, w) = B::new(&two);
            let (x, y) = (d.x("logic", "Not", &[w[0]]), d.x("logic", "Not", &[w[1]]));
            let p = d.x("logic", "Or", &[x, y]);
            vec![b.done(&[o]), d.done(&[p])]
        }
        5 => {
            let (mut b, w) = B::new(&[t_q()]);
            let x = b.g("X", &w);
            let m = b.g("MeasureFree", &x);
            let (mut d, w) = B::new(&[t_q()]);
            let m2 = d.g("MeasureFree", &w);
            let o = d.x("tket.bool", "not", &m2);
            let (mut e, w) = B::new(&[t_q()]);
            let m3 = e.g("Measure", &w);
            e.g("QFree", &m3[..1]);
            let p = e.x("logic", "Not", &m3[1..]);
            let p = e.x("tket.bool", "make_opaque", &[p]);
            vec![b.done(&m), d.done(&[o]), e.done(&[p])]
        }
        6 => {
            let (mut b, _) = B::new(&[]);
            let x = b.g("QAlloc", &[]);
            let y = b.g("Z", &x);
            let (mut d, _) = B::new(&[]);
            let z = d.g("QAlloc", &[]);
            vec![b.done(&y), d.done(&z)]
        }
        // a value used inside and outside
        7 => {
            let (mut b, w) = B::new(&two);
            let x = b.x("logic", "And", &w);
            let y = b.x("logic", "Or", &[x, w[0]]);
            let (mut d, w) = B::new(&two);
            let z = d.x("logic", "And", &[w[1], w[0]]);
            vec![b.done(&[x, y]), d.done(&[z, w[0]])]
        }
        _ => {
            let (mut b, w) = B::new(&[t_q()]);
            let m = b.g("Measure", &w);
            let m2 = b.g("Measure", &m[..1]);
            let (mut d, w) = B::new(&[t_q()]);
            let n = d.g("Measure", &w);
            vec![b.done(&[m2[0], m[1], m2[1]]), d.done(&[n[0], n[1], n[1]])]
        }
    }
}
/// Adds a wire that goes straight through to every member.
fn widen(src: &mut Src, class: &mut [Flat]) {
    let t = src.choose(&[t_q(), t_q(), t_b()]);
    let i = src.below(class[0].ins.len() + 1);
    let o = src.below(class[0].outs.len() + 1);
    let keep = linear(&t) || src.flip();
    for f in class {
        let w = f.wire(t.clone());
        f.ins.insert(i, w);
        if keep {
            f.outs.insert(o, w);
        }
        *f = f.normal();
    }
}
pub fn class(src: &mut Src, k: Kind) -> Vec<Flat> {
    let mut v = match (k, src.below(3)) {
        (Kind::Rot, 0 | 1) | (Kind::All, 0) => rotation_class(src),
        (Kind::Classical, 0 | 1) | (Kind::All, 1) => classical_class(src),
        _ => {
            let n = src.weighted(&[2, 3, 3]) + 1;
            unitary_class(src, n)
        }
    };
    if src.chance(1, 8) {
        widen(src, &mut v);
    }
    if src.flip() {
        src.shuffle(&mut v);
    }
    v
}
/// Puts copies of circuits at the end of another, their operations interleaved: inputs are chosen when they are first used, and
/// results can be used as soon as they are there.
pub fn inject(src: &mut Src, f: &mut Flat, live: &mut Vec<usize>, gs: &[&Flat]) {
    struct M<'a> {
        g: &'a Flat,
        map: Vec<usize>,
        at: usize,
    }
    let mut ms: Vec<M> = gs.iter().map(|g| M { g, map: vec![usize::MAX; g.tys.len()], at: 0 }).collect();
    loop {
        let open: Vec<usize> = (0..ms.len()).filter(|i| ms[*i].at < ms[*i].g.nodes.len()).collect();
        if open.is_empty() {
            return;
        }
        // those whose new qubits are there
        let ready: Vec<usize> = open
            .into_iter()
            .filter(|i| {
                let m = &ms[*i];
                let n = &m.g.nodes[m.at];
                let need = n.ins.iter().filter(|w| m.map[**w] == usize::MAX && linear(&m.g.tys[**w])).count();
                live.iter().filter(|w| linear(&f.tys[**w])).count() >= need
            })
            .collect();
        if ready.is_empty() {
            // what is left is dropped, its qubits stay
            let u = f.uses();
            live.extend((0..f.tys.len()).filter(|w| linear(&f.tys[*w]) && u.users[*w].is_empty() && !live.contains(w)).collect::<Vec<_>>());
            return;
        }
        let m = &mut ms[src.choose(&ready)];
        let n = &m.g.nodes[m.at];
        m.at += 1;
        for w in &n.ins {
            if m.map[*w] != usize::MAX {
                continue;
            }
            let t = &m.g.tys[*w];
            let c: Vec<usize> = live.iter().copied().filter(|x| f.tys[*x] == *t).collect();
            let x = if c.is_empty() || !linear(t) && src.chance(1, 6) { f.input(t.clone()) } else { src.choose(&c) };
            if linear(t) {
                live.retain(|y| *y != x);
            }
            m.map[*w] = x;
        }
        let ins: Vec<usize> = n.ins.iter().map(|w| m.map[*w]).collect();
        let outs: Vec<usize> = n.outs.iter().map(|w| f.wire(m.g.tys[*w].clone())).collect();
        for (a, b) in n.outs.iter().zip(&outs) {
            m.map[*a] = *b;
        }
        f.nodes.push(FNode { op: n.op.clone(), key: n.key.clone(), ins, outs });
        for w in &n.outs {
            if m.g.outs.contains(w) {
                live.push(m.map[*w]);
            }
        }
    }
}
/// A circuit in which members of the classes occur.
pub fn circuit(src: &mut Src, k: Kind, classes: &[Vec<Flat>], nq: usize, most: usize) -> Flat {
    let mut f = Flat::default();
    let mut live: Vec<usize> = (0..nq).map(|_| f.input(t_q())).collect();
    let cat = catalogue(k);
    let near = src.flip();
    while f.nodes.len() < most {
        if src.chance(1, 12) {
            break;
        }
        let before = f.nodes.len();
        if src.chance(2, 5) && !classes.is_empty() {
            let n = src.weighted(&[3, 2]) + 1;
            let gs: Vec<&Flat> = (0..n)
                .map(|_| {
                    let c = src.pick(classes);
                    src.pick(c)
                })
                .collect();
            let need: usize = gs.iter().map(|g| g.ins.iter().filter(|w| linear(&g.tys[**w])).count()).max().unwrap();
            let have = live.iter().filter(|w| f.tys[**w] == t_q()).count();
            if need <= have {
                inject(src, &mut f, &mut live, &gs);
            }
        } else if src.chance(1, 8) && matches!(k, Kind::Rot | Kind::All) {
            let x = *src.pick(&[0.25, 0.5, 1.0, 0.0]);
            live.push(f.constant(c_r(x)));
        } else {
            grow(src, &mut f, &mut live, &cat, near);
        }
        if f.nodes.len() == before && src.chance(1, 4) {
            break;
        }
    }
    finish(src, f, live)
}
/// Two or three members, interleaved, on few qubits.
pub fn interleaved(src: &mut Src, classes: &[Vec<Flat>], nq: usize) -> Flat {
    let mut f = Flat::default();
    let mut live: Vec<usize> = (0..nq).map(|_| f.input(t_q())).collect();
    let n = src.range(2, 3);
    let gs: Vec<&Flat> = (0..n)
        .map(|_| {
            let c = src.pick(classes);
            src.pick(c)
        })
        .collect();
    // a member may have to wait for another's results; give up when all wait
    inject(src, &mut f, &mut live, &gs);
    finish(src, f, live)
}
