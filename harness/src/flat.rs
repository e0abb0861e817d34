//! Flat circuits: a list of operations over numbered wires, kept beside the HUGR built from it, so that matching and
//! rewriting can be judged without going through the code under test.
use crate::gen::Src;
use crate::hb::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{self, OpTrait, OpType, Value};
use hugr::types::{Signature, Type};
use hugr::{Hugr, HugrView, Node};

#[derive(Clone)]
pub enum FOp {
    Op(OpType),
    Const(Value),
}
#[derive(Clone)]
pub struct FNode {
    pub op: FOp,
    /// what has to be equal for two operations to be the same
    pub key: String,
    pub ins: Vec<usize>,
    pub outs: Vec<usize>,
}
#[derive(Clone, Default)]
pub struct Flat {
    pub tys: Vec<Type>,
    pub ins: Vec<usize>,
    pub nodes: Vec<FNode>,
    pub outs: Vec<usize>,
}
impl std::fmt::Debug for Flat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "in {:?}", self.ins.iter().map(|w| format!("{w}:{}", self.tys[*w])).collect::<Vec<_>>())?;
        for (i, n) in self.nodes.iter().enumerate() {
            writeln!(f, "  #{i} {:?} = {} {:?}", n.outs, n.key, n.ins)?;
        }
        writeln!(f, "out {:?}", self.outs)
    }
}
pub fn linear(t: &Type) -> bool {
    !t.copyable()
}
/// Who makes and who uses each wire.
pub struct Uses {
    /// None for inputs
    pub maker: Vec<Option<(usize, usize)>>,
    /// (node, port), node == number of nodes for the outputs
    pub users: Vec<Vec<(usize, usize)>>,
}
impl Flat {
    pub fn wire(&mut self, t: Type) -> usize {
        self.tys.push(t);
        self.tys.len() - 1
    }
    pub fn input(&mut self, t: Type) -> usize {
        let w = self.wire(t);
        self.ins.push(w);
        w
    }
    pub fn op(&mut self, op: OpType, ins: &[usize]) -> Vec<usize> {
        let outs: Vec<usize> = op.dataflow_signature().unwrap().output().iter().cloned().collect::<Vec<_>>().into_iter().map(|t| self.wire(t)).collect();
        let key = match &op {
            OpType::ExtensionOp(e) => format!("{}{:?}", e.qualified_id(), e.args()),
            o => format!("{o:?}"),
        };
        self.nodes.push(FNode { op: FOp::Op(op), key, ins: ins.to_vec(), outs: outs.clone() });
        outs
    }
    pub fn constant(&mut self, v: Value) -> usize {
        let w = self.wire(v.get_type());
        self.nodes.push(FNode { key: format!("{v:?}"), op: FOp::Const(v), ins: vec![], outs: vec![w] });
        w
    }
    pub fn uses(&self) -> Uses {
        let mut u = Uses { maker: vec![None; self.tys.len()], users: vec![vec![]; self.tys.len()] };
        for (i, n) in self.nodes.iter().enumerate() {
            for (p, w) in n.outs.iter().enumerate() {
                u.maker[*w] = Some((i, p));
            }
            for (p, w) in n.ins.iter().enumerate() {
                u.users[*w].push((i, p));
            }
        }
        for (p, w) in self.outs.iter().enumerate() {
            u.users[*w].push((self.nodes.len(), p));
        }
        u
    }
    pub fn in_tys(&self) -> Vec<Type> {
        self.ins.iter().map(|w| self.tys[*w].clone()).collect()
    }
    pub fn out_tys(&self) -> Vec<Type> {
        self.outs.iter().map(|w| self.tys[*w].clone()).collect()
    }
    /// Fills an existing region.
    fn fill(&self, h: &mut Hugr, r: &mut Region, consts_at: Node) -> Vec<Node> {
        let mut wires: Vec<Option<Wire>> = vec![None; self.tys.len()];
        for (w, x) in self.ins.iter().zip(r.wires.clone()) {
            wires[*w] = Some(x);
        }
        let mut at = vec![];
        for n in &self.nodes {
            let outs = match &n.op {
                FOp::Op(o) => {
                    let ins: Vec<Wire> = n.ins.iter().map(|w| wires[*w].clone().unwrap()).collect();
                    let outs = add(h, r, o.clone(), &ins);
                    at.push(*r.ops.last().unwrap());
                    outs
                }
                FOp::Const(v) => {
                    let w = load_const(h, r, v.clone(), consts_at);
                    at.push(w.n);
                    vec![w]
                }
            };
            for (w, x) in n.outs.iter().zip(outs) {
                wires[*w] = Some(x);
            }
        }
        let outs: Vec<Wire> = self.outs.iter().map(|w| wires[*w].clone().unwrap()).collect();
        set_outputs(h, r, &outs);
        at
    }
    /// The circuit in one of several containers: 0 a DFG that is the root of its HUGR, 1 a function, 2 a DFG in a function,
    /// 3 a function with its constants in the module.
    pub fn build(&self, shape: usize) -> (Hugr, Vec<Node>) {
        let sg = Signature::new(self.in_tys(), self.out_tys());
        let mut h;
        let at;
        match shape {
            0 => {
                h = Hugr::new_with_entrypoint(ops::DFG { signature: sg }).unwrap();
                let e = h.entrypoint();
                let mut r = new_region(&mut h, e, &self.in_tys(), 0);
                at = self.fill(&mut h, &mut r, e);
            }
            1 | 3 => {
                h = Hugr::new();
                let m = h.module_root();
                let f = h.add_node_with_parent(m, ops::FuncDefn::new("main", sg));
                let mut r = new_region(&mut h, f, &self.in_tys(), 0);
                at = self.fill(&mut h, &mut r, if shape == 1 { f } else { m });
                h.set_entrypoint(f);
            }
            _ => {
                h = Hugr::new();
                let m = h.module_root();
                let f = h.add_node_with_parent(m, ops::FuncDefn::new("main", sg.clone()));
                let mut r = new_region(&mut h, f, &self.in_tys(), 0);
                let ins = r.wires.clone();
                let o = add(&mut h, &mut r, ops::DFG { signature: sg }, &ins);
                let d = *r.ops.last().unwrap();
                set_outputs(&mut h, &r, &o);
                let mut r = new_region(&mut h, d, &self.in_tys(), 1);
                at = self.fill(&mut h, &mut r, d);
                h.set_entrypoint(d);
            }
        }
        (h, at)
    }
    /// The sub-circuit made of the given operations.
    pub fn extract(&self, nodes: &[usize], src: Option<&mut Src>) -> Flat {
        let u = self.uses();
        let inside = |n: usize| nodes.contains(&n);
        let mut ins = vec![];
        let mut outs = vec![];
        for n in nodes {
            for w in &self.nodes[*n].ins {
                if !u.maker[*w].is_some_and(|m| inside(m.0)) && !ins.contains(w) {
                    ins.push(*w);
                }
            }
            for w in &self.nodes[*n].outs {
                if u.users[*w].iter().any(|x| !inside(x.0)) || linear(&self.tys[*w]) && u.users[*w].is_empty() {
                    outs.push(*w);
                }
            }
        }
        if let Some(s) = src {
            s.shuffle(&mut ins);
            s.shuffle(&mut outs);
        }
        Flat { tys: self.tys.clone(), ins, nodes: nodes.iter().map(|n| self.nodes[*n].clone()).collect(), outs }
    }
    /// The same circuit with wires numbered from 0 in order of appearance.
    pub fn normal(&self) -> Flat {
        let mut map = vec![usize::MAX; self.tys.len()];
        let mut f = Flat::default();
        for w in &self.ins {
            map[*w] = f.input(self.tys[*w].clone());
        }
        for n in &self.nodes {
            let ins = n.ins.iter().map(|w| map[*w]).collect();
            let outs: Vec<usize> = n.outs.iter().map(|w| f.wire(self.tys[*w].clone())).collect();
            for (a, b) in n.outs.iter().zip(&outs) {
                map[*a] = *b;
            }
            f.nodes.push(FNode { op: n.op.clone(), key: n.key.clone(), ins, outs });
        }
        f.outs = self.outs.iter().map(|w| map[*w]).collect();
        f
    }
}

/// Which operations a flat circuit may use.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Clifford,
    Rot,
    Classical,
    All,
    Tiny,
}
fn noop(t: &Type) -> OpType {
    xop("prelude", "Noop", &[ta(t)])
}
pub fn catalogue(k: Kind) -> Vec<OpType> {
    let mut v: Vec<OpType> = match k {
        Kind::Tiny => return ["H", "CX"].iter().map(|n| q(n)).collect(),
        _ => ["H", "X", "Z", "S", "T", "CX", "CZ", "CX"].iter().map(|n| q(n)).collect(),
    };
    if matches!(k, Kind::Rot | Kind::All) {
        v.extend(["Rz", "Rx", "CRz", "Rz", "Rx"].iter().map(|n| q(n)));
        v.extend([xop("tket.rotation", "radd", &[]), noop(&t_r())]);
    }
    if matches!(k, Kind::Classical | Kind::All) {
        v.extend(["Measure", "MeasureFree", "QAlloc", "QFree", "Reset", "Toffoli"].iter().map(|n| q(n)));
        v.extend(["And", "Or", "Not", "And"].iter().map(|n| xop("logic", n, &[])));
        v.extend([noop(&t_q()), noop(&t_b())]);
    }
    v
}
/// Adds a random operation that the live wires allow.
pub fn grow(src: &mut Src, f: &mut Flat, live: &mut Vec<usize>, cat: &[OpType], near: bool) -> bool {
    let op = src.choose(cat);
    let ins: Vec<Type> = op.dataflow_signature().unwrap().input().iter().cloned().collect();
    let mut pool = live.clone();
    let mut args = vec![];
    for t in &ins {
        let c: Vec<usize> = pool.iter().copied().filter(|w| f.tys[*w] == *t).collect();
        if c.is_empty() {
            return false;
        }
        let w = if near && src.chance(2, 3) { *c.last().unwrap() } else { src.choose(&c) };
        if linear(t) {
            pool.retain(|x| *x != w);
        }
        args.push(w);
    }
    *live = pool;
    live.extend(f.op(op, &args));
    true
}
pub fn flat(src: &mut Src, k: Kind, nq: usize, most: usize) -> Flat {
    let mut f = Flat::default();
    let mut live: Vec<usize> = (0..nq).map(|_| f.input(t_q())).collect();
    if matches!(k, Kind::Rot | Kind::All) {
        for _ in 0..src.below(3) {
            live.push(f.input(t_r()));
        }
    }
    if matches!(k, Kind::Classical | Kind::All) {
        for _ in 0..src.below(3) {
            live.push(f.input(t_b()));
        }
    }
    if src.chance(1, 3) {
        src.shuffle(&mut f.ins);
    }
    let cat = catalogue(k);
    let n = src.range(0, most);
    let near = src.flip();
    for _ in 0..n {
        if matches!(k, Kind::Rot | Kind::All) && src.chance(1, 8) {
            let x = *src.pick(&[0.25, 0.5, 1.0]);
            live.push(f.constant(c_r(x)));
        } else if matches!(k, Kind::Classical | Kind::All) && src.chance(1, 12) {
            let x = src.flip();
            live.push(f.constant(c_b(x)));
        } else {
            grow(src, &mut f, &mut live, &cat, near);
        }
    }
    finish(src, f, live)
}
pub fn finish(src: &mut Src, mut f: Flat, live: Vec<usize>) -> Flat {
    // outputs: every linear wire, some others
    let mut outs: Vec<usize> = live.iter().copied().filter(|w| linear(&f.tys[*w])).collect();
    for w in live.iter().filter(|w| !linear(&f.tys[**w])) {
        if src.chance(1, 3) {
            outs.push(*w);
            if src.chance(1, 8) {
                outs.push(*w);
            }
        }
    }
    if src.flip() {
        src.shuffle(&mut outs);
    }
    f.outs = outs;
    f.normal()
}
/// A few operations close to each other: a random node and neighbours of what was taken.
pub fn cluster(src: &mut Src, f: &Flat, most: usize, connected: bool) -> Vec<usize> {
    let u = f.uses();
    let mut set = vec![src.below(f.nodes.len())];
    let n = src.range(1, most);
    for _ in 1..n {
        let mut next: Vec<usize> = vec![];
        for i in &set {
            for w in f.nodes[*i].ins.iter() {
                next.extend(u.maker[*w].iter().map(|x| x.0));
                if !linear(&f.tys[*w]) {
                    next.extend(u.users[*w].iter().map(|x| x.0));
                }
            }
            for w in f.nodes[*i].outs.iter() {
                next.extend(u.users[*w].iter().map(|x| x.0));
            }
        }
        next.retain(|x| *x < f.nodes.len() && !set.contains(x));
        next.sort();
        next.dedup();
        if next.is_empty() || !connected && src.chance(1, 10) {
            next = (0..f.nodes.len()).filter(|x| !set.contains(x)).collect();
        }
        if next.is_empty() {
            break;
        }
        set.push(src.choose(&next));
    }
    set.sort();
    set
}
/// Is there a path from one of the operations to another through the outside?
pub fn convex(f: &Flat, set: &[usize]) -> bool {
    let mut tainted = vec![false; f.tys.len()];
    for (i, n) in f.nodes.iter().enumerate() {
        let inside = set.contains(&i);
        let t = n.ins.iter().any(|w| tainted[*w]);
        if inside && t {
            return false;
        }
        if !inside {
            let from = n.ins.iter().any(|w| f.nodes.iter().enumerate().any(|(j, m)| set.contains(&j) && m.outs.contains(w)));
            if from || t {
                n.outs.iter().for_each(|w| tainted[*w] = true);
            }
        }
    }
    true
}
/// Adds what lies between the operations until the set is convex.
pub fn close(f: &Flat, set: &mut Vec<usize>) {
    let u = f.uses();
    let n = f.nodes.len();
    let succ = |i: usize| -> Vec<usize> { f.nodes[i].outs.iter().flat_map(|w| u.users[*w].iter().map(|x| x.0)).filter(|x| *x < n).collect() };
    let mut after = vec![false; n];
    let mut before = vec![false; n];
    for i in 0..n {
        if set.contains(&i) || after[i] {
            after[i] = true;
            succ(i).into_iter().for_each(|j| after[j] = true);
        }
    }
    for i in (0..n).rev() {
        before[i] = set.contains(&i) || succ(i).iter().any(|j| before[*j]);
    }
    *set = (0..n).filter(|i| after[*i] && before[*i]).collect();
}
