//! Programs with control, adjoint and power modifiers.
use crate::gen::Src;
use crate::hb::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{self, OpType};
use hugr::types::{Signature, Type, TypeRow};
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort};
use std::collections::BTreeSet;

/// How resolving must end.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Verdict {
    /// The modified function exists.
    Works,
    /// The documentation excludes this case: an error or the right result.
    May,
    /// No modified function exists: an error.
    No,
}
use Verdict::*;

#[derive(Clone, Debug)]
pub enum M {
    Ctrl(usize),
    Dagger,
    Power(u64),
}
/// A function with the linear values first.
#[derive(Clone, Debug)]
pub struct F {
    pub node: Node,
    pub l: Vec<Type>,
    pub r: Vec<Type>,
    /// verdict under control only, adjoint only; and both is the worse
    pub ctrl: Verdict,
    pub dag: Verdict,
    pub quantum: bool,
    /// of the modified calls inside
    pub here: Verdict,
    /// It calls classical functions: controlled ones take qubits and return other values too.
    pub mixes: bool,
    /// cost of a run in gates
    pub size: usize,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub ops: (usize, usize),
    pub sub: (usize, usize),
    pub depth: usize,
    pub max_ctrl: usize,
    pub max_l: usize,
    pub arrays: bool,
    /// weights of single gates, phases, classical values, regions, calls, modifiers, odd things
    pub w: Vec<(W, usize)>,
    pub dagger: bool,
    /// per mille
    pub wrong: usize,
    pub power: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum W {
    Gate,
    Phase,
    Class,
    Pack,
    Unpack,
    Convert,
    Dfg,
    Cond,
    Loop,
    Cfg1,
    Call,
    CallInd,
    Mods,
    Noop,
    Barrier,
    Tuple,
    Pure,
    Order,
    Measure,
    Alloc,
    Cfg2,
    ArrOp,
}

pub struct B<'s> {
    pub src: &'s mut Src,
    pub cfg: Cfg,
    pub h: Hugr,
    pub fs: Vec<F>,
    pub feats: BTreeSet<String>,
    /// of the function under construction
    ctrl: Verdict,
    dag: Verdict,
    size: usize,
    mult: usize,
    mixes: bool,
    /// inside a function that a modifier may apply to
    unitary: bool,
    pub verdict: Verdict,
    pub total_ctrl: usize,
    pub modified: usize,
    prev: Option<Node>,
}

pub const G1: &[&str] = &["X", "H", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg"];
pub const GR: &[&str] = &["Rz", "Rx", "Ry"];
pub const G2: &[&str] = &["CX", "CY", "CZ"];

impl<'s> B<'s> {
    pub fn new(src: &'s mut Src, cfg: Cfg) -> B<'s> {
        B { src, cfg, h: Hugr::new(), fs: vec![], feats: BTreeSet::new(), ctrl: Works, dag: Works, size: 0, mult: 1, mixes: false, unitary: true, verdict: Works, total_ctrl: 0, modified: 0, prev: None }
    }
    fn wire(&mut self, n: Node, v: &[Wire]) {
        for (i, w) in v.iter().enumerate() {
            self.h.connect(w.n, OutgoingPort::from(w.p), n, IncomingPort::from(i));
        }
    }
    pub fn put(&mut self, r: &mut Region, o: impl Into<ops::OpType>, v: &[Wire]) -> Vec<Wire> {
        add(&mut self.h, r, o, v)
    }
    pub fn konst(&mut self, r: &mut Region, v: hugr::ops::Value) -> Wire {
        // here, in a region around, or in the module; possibly one that is used already
        let mut places = vec![r.parent];
        if self.src.chance(1, 4) {
            let mut n = r.parent;
            while let Some(p) = self.h.get_parent(n) {
                if matches!(self.h.get_optype(p), OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::FuncDefn(_) | OpType::Module(_)) {
                    places.push(p);
                }
                n = p;
            }
        }
        let at = *self.src.pick(&places);
        if at != r.parent {
            let same: Vec<Node> = self.h.children(at).filter(|n| matches!(self.h.get_optype(*n), OpType::Const(k) if *k.value() == v)).collect();
            if let Some(c) = same.first() {
                if self.src.flip() {
                    return load(&mut self.h, r, *c);
                }
            }
        }
        load_const(&mut self.h, r, v, at)
    }
    fn angle(&mut self) -> f64 {
        match self.src.below(4) {
            0 => 0.5,
            1 => 0.25 * self.src.irange(-7, 8) as f64,
            _ => self.src.irange(-200, 200) as f64 / 101.0,
        }
    }
    fn find(&mut self, r: &Region, f: impl Fn(&Type) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..r.wires.len()).filter(|i| f(&r.wires[*i].t)).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[self.src.below(v.len())])
        }
    }
    /// A copyable value of the type.
    pub fn class(&mut self, r: &mut Region, t: &Type) -> Wire {
        if let Some(i) = self.find(r, |x| x == t) {
            if self.src.chance(3, 4) {
                return r.wires[i].clone();
            }
        }
        let a = self.angle();
        let w = if *t == t_r() {
            if self.src.chance(1, 4) {
                let x = self.class(r, &t_f());
                self.put(r, xop("tket.rotation", "from_halfturns_unchecked", &[]), &[x])[0].clone()
            } else {
                self.konst(r, c_r(a))
            }
        } else if *t == t_f() {
            self.konst(r, c_f(a))
        } else if *t == t_b() {
            let b = self.src.flip();
            self.konst(r, c_b(b))
        } else {
            panic!("class {t}")
        };
        r.wires.push(w.clone());
        w
    }
    pub fn take_q(&mut self, r: &mut Region, n: usize) -> Option<Vec<Wire>> {
        if r.wires.iter().filter(|w| is_q(&w.t)).count() < n {
            return None;
        }
        let mut v = vec![];
        for _ in 0..n {
            let i = self.find(r, is_q).unwrap();
            v.push(r.wires.remove(i));
        }
        Some(v)
    }
    fn gate(&mut self, r: &mut Region, op: &str, nq: usize, rot: bool) -> bool {
        let Some(mut v) = self.take_q(r, nq) else { return false };
        if rot {
            let a = self.class(r, &t_r());
            v.push(a);
        }
        let o = self.put(r, q(op), &v);
        r.wires.extend(o);
        self.size += self.mult;
        true
    }
    pub fn any_gate(&mut self, r: &mut Region) -> bool {
        let nq = r.wires.iter().filter(|w| is_q(&w.t)).count();
        match self.src.weighted(&[8, 4, 5, 2, if nq > 2 { 2 } else { 0 }]) {
            0 => {
                let g = *self.src.pick(G1);
                self.gate(r, g, 1, false)
            }
            1 => {
                let g = *self.src.pick(GR);
                self.gate(r, g, 1, true)
            }
            2 => {
                let g = *self.src.pick(G2);
                self.gate(r, g, 2, false)
            }
            3 => self.gate(r, "CRz", 2, true),
            _ => self.gate(r, "Toffoli", 3, false),
        }
    }
    /// Ends a region with exactly these types, putting all linear values in use.
    pub fn finish(&mut self, r: &mut Region, ts: &[Type]) -> Vec<Wire> {
        let mut out: Vec<Option<Wire>> = vec![None; ts.len()];
        let straight = !self.src.chance(1, 5);
        for (i, t) in ts.iter().enumerate() {
            if arr_of(t).is_some() && has_qubit(t) {
                if let Some(j) = (0..r.wires.len()).find(|j| r.wires[*j].t == *t) {
                    out[i] = Some(r.wires.remove(j));
                }
            }
        }
        while let Some(j) = r.wires.iter().position(|w| has_qubit(&w.t) && !is_q(&w.t)) {
            let w = r.wires.remove(j);
            self.unpack(r, w);
        }
        if !straight {
            self.feats.insert("permuted".into());
        }
        for (i, t) in ts.iter().enumerate() {
            if out[i].is_some() {
                continue;
            }
            if is_q(t) {
                // the oldest or any
                let j = if straight { r.wires.iter().position(|w| is_q(&w.t)).unwrap() } else { self.find(r, is_q).unwrap() };
                out[i] = Some(r.wires.remove(j));
            } else if let Some((k, n, _)) = arr_of(t).filter(|_| has_qubit(t)) {
                let v = self.take_q(r, n as usize).unwrap();
                out[i] = Some(self.put(r, xop(k.ext(), "new_array", &[nat(n), ta(&t_q())]), &v)[0].clone());
            } else {
                out[i] = Some(self.class(r, t));
            }
        }
        assert!(r.wires.iter().all(|w| !has_qubit(&w.t)), "{:?} {ts:?}", r.wires);
        let o: Vec<Wire> = out.into_iter().flatten().collect();
        set_outputs(&mut self.h, r, &o);
        o
    }
    fn unpack(&mut self, r: &mut Region, w: Wire) {
        if let Some((k, n, t)) = arr_of(&w.t) {
            let o = self.put(r, xop(k.ext(), "unpack", &[nat(n), ta(&t)]), &[w]);
            r.wires.extend(o);
        } else if let Some(ts) = tuple_of(&w.t) {
            let o = self.put(r, xop("prelude", "UnpackTuple", &[lst(&ts)]), &[w]);
            r.wires.extend(o);
        }
    }
    fn bad(&mut self, c: Verdict, d: Verdict) {
        self.ctrl = self.ctrl.max(c);
        self.dag = self.dag.max(d);
    }
    pub fn body(&mut self, r: &mut Region, n: usize) {
        let mut ws: Vec<usize> = self.cfg.w.iter().map(|x| x.1).collect();
        ws.insert(0, 1);
        for _ in 0..n {
            let i = self.src.weighted(&ws);
            if i == 0 || self.size > 120 {
                continue;
            }
            let k = self.cfg.w[i - 1].0;
            if self.emit(r, k) {
                self.feats.insert(format!("{k:?}"));
            }
        }
    }
    /// Some linear values and some classical ones, in any order.
    fn some(&mut self, r: &mut Region) -> Vec<Wire> {
        let mut v = vec![];
        let n = self.src.range(1, 3);
        for _ in 0..n {
            if let Some(i) = self.find(r, |t| has_qubit(t) && tuple_of(t).is_none()) {
                v.push(r.wires.remove(i));
            }
        }
        if self.src.chance(1, 3) {
            let t = self.src.choose(&[t_r(), t_b(), t_f()]);
            let w = self.class(r, &t);
            let at = self.src.below(v.len() + 1);
            v.insert(at, w);
        }
        v
    }
    /// The types a region returns for these inputs, and whether it is special under an adjoint.
    fn returns(&mut self, v: &[Wire]) -> (Vec<Type>, bool) {
        let mut o: Vec<Type> = v.iter().filter(|w| has_qubit(&w.t)).map(|w| w.t.clone()).collect();
        let mut odd = false;
        if self.src.chance(1, 12) && !o.is_empty() {
            let t = self.src.choose(&[t_r(), t_b()]);
            let at = self.src.below(o.len() + 1);
            o.insert(at, t);
            odd = true;
        }
        if self.src.chance(1, 20) && o.iter().filter(|t| is_q(t)).count() > 1 && self.cfg.arrays {
            let nq = o.iter().filter(|t| is_q(t)).count() as u64;
            o.retain(|t| !is_q(t));
            o.push(t_arr(AK::Array, nq, t_q()));
            odd = true;
        }
        (o, odd)
    }
    pub fn emit(&mut self, r: &mut Region, k: W) -> bool {
        let deep = r.depth >= self.cfg.depth;
        match k {
            W::Gate => self.any_gate(r),
            W::Phase => {
                let a = self.class(r, &t_r());
                self.put(r, xop("tket.global_phase", "global_phase", &[]), &[a]);
                self.size += self.mult;
                true
            }
            W::Class => {
                let (a, b) = match self.src.below(6) {
                    0 => {
                        let (x, y) = (self.class(r, &t_r()), self.class(r, &t_r()));
                        (xop("tket.rotation", "radd", &[]), vec![x, y])
                    }
                    1 => (xop("tket.rotation", "to_halfturns", &[]), vec![self.class(r, &t_r())]),
                    2 => (xop("tket.rotation", "from_halfturns_unchecked", &[]), vec![self.class(r, &t_f())]),
                    3 => {
                        let op = *self.src.pick(&["fadd", "fmul", "fsub"]);
                        let (x, y) = (self.class(r, &t_f()), self.class(r, &t_f()));
                        (xop("arithmetic.float", op, &[]), vec![x, y])
                    }
                    4 => (xop("logic", "Not", &[]), vec![self.class(r, &t_b())]),
                    _ => {
                        let op = *self.src.pick(&["flt", "fge"]);
                        let (x, y) = (self.class(r, &t_f()), self.class(r, &t_f()));
                        (xop("arithmetic.float", op, &[]), vec![x, y])
                    }
                };
                let o = self.put(r, a, &b);
                r.wires.extend(o);
                true
            }
            W::Pack => {
                let n = self.src.range(1, 2);
                let Some(v) = self.take_q(r, n) else { return false };
                let k = self.src.choose(&[AK::Array, AK::Borrow, AK::Value]);
                let o = self.put(r, xop(k.ext(), "new_array", &[nat(n as u64), ta(&t_q())]), &v);
                r.wires.extend(o);
                true
            }
            W::Unpack => {
                let Some(i) = self.find(r, |t| arr_of(t).is_some() && has_qubit(t)) else { return false };
                let w = r.wires.remove(i);
                self.unpack(r, w);
                true
            }
            W::Convert => {
                let Some(i) = self.find(r, |t| arr_of(t).is_some() && has_qubit(t)) else { return false };
                let w = r.wires.remove(i);
                let (k, n, t) = arr_of(&w.t).unwrap();
                let a = [nat(n), ta(&t)];
                let op = match k {
                    AK::Array => xop(self.src.choose(&[AK::Borrow, AK::Value]).ext(), "from_array", &a),
                    k => xop(k.ext(), "to_array", &a),
                };
                let o = self.put(r, op, &[w]);
                r.wires.extend(o);
                true
            }
            W::Tuple => {
                let Some(v) = self.take_q(r, 1) else { return false };
                let mut v = v;
                if self.src.flip() {
                    let x = self.class(r, &t_r());
                    v.push(x);
                }
                let ts: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let o = self.put(r, xop("prelude", "MakeTuple", &[lst(&ts)]), &v);
                r.wires.extend(o);
                self.bad(Works, May);
                true
            }
            W::Noop => {
                let Some(i) = self.find(r, has_qubit) else { return false };
                let w = r.wires.remove(i);
                let o = self.put(r, xop("prelude", "Noop", &[ta(&w.t)]), &[w]);
                r.wires.extend(o);
                true
            }
            W::Barrier => {
                let v = self.some(r);
                if v.is_empty() {
                    return false;
                }
                let ts: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let o = self.put(r, xop("prelude", "Barrier", &[lst(&ts)]), &v);
                r.wires.extend(o);
                if ts.iter().any(|t| !has_qubit(t)) {
                    self.bad(Works, May);
                }
                true
            }
            W::Order => {
                let Some(p) = self.prev.filter(|p| self.h.get_parent(*p) == Some(r.parent) && out_order(&self.h, *p)) else {
                    self.prev = r.ops.last().copied();
                    return false;
                };
                let Some(&n) = r.ops.last() else { return false };
                if n == p || !in_order(&self.h, n) {
                    return false;
                }
                self.h.add_other_edge(p, n);
                true
            }
            W::Dfg if !deep => {
                let v = self.some(r);
                let ins: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let (o, odd) = self.returns(&v);
                if odd {
                    self.bad(Works, May);
                }
                let n = self.h.add_node_with_parent(r.parent, ops::DFG { signature: sig(&ins, &o) });
                let mut b = new_region(&mut self.h, n, &ins, r.depth + 1);
                let k = self.src.range(self.cfg.sub.0, self.cfg.sub.1);
                self.body(&mut b, k);
                self.finish(&mut b, &o);
                self.wire(n, &v);
                r.ops.push(n);
                let o = outs(&self.h, n);
                r.wires.extend(o);
                true
            }
            W::Cfg1 if !deep => {
                let v = self.some(r);
                let ins: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let (o, odd) = self.returns(&v);
                if odd {
                    self.bad(Works, May);
                }
                let n = self.h.add_node_with_parent(r.parent, ops::CFG { signature: sig(&ins, &o) });
                let blk = self.h.add_node_with_parent(n, ops::DataflowBlock { inputs: row(&ins), other_outputs: row(&o), sum_rows: vec![TypeRow::new()] });
                let exit = self.h.add_node_with_parent(n, ops::ExitBlock { cfg_outputs: row(&o) });
                self.h.connect(blk, 0, exit, 0);
                let mut b = new_region(&mut self.h, blk, &ins, r.depth + 1);
                let k = self.src.range(self.cfg.sub.0, self.cfg.sub.1);
                self.body(&mut b, k);
                let ow = self.finish_block(&mut b, &o);
                self.put_outputs(&b, ow);
                self.wire(n, &v);
                r.ops.push(n);
                let o = outs(&self.h, n);
                r.wires.extend(o);
                true
            }
            W::Cfg2 if !deep => {
                // two blocks in a row
                let v = self.some(r);
                let ins: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let (o, _) = self.returns(&v);
                self.bad(May, May);
                let n = self.h.add_node_with_parent(r.parent, ops::CFG { signature: sig(&ins, &o) });
                let blk = self.h.add_node_with_parent(n, ops::DataflowBlock { inputs: row(&ins), other_outputs: row(&o), sum_rows: vec![TypeRow::new()] });
                let exit = self.h.add_node_with_parent(n, ops::ExitBlock { cfg_outputs: row(&o) });
                let bl2 = self.h.add_node_with_parent(n, ops::DataflowBlock { inputs: row(&o), other_outputs: row(&o), sum_rows: vec![TypeRow::new()] });
                self.h.connect(blk, 0, bl2, 0);
                self.h.connect(bl2, 0, exit, 0);
                for (p, i) in [(blk, &ins), (bl2, &o)] {
                    let mut b = new_region(&mut self.h, p, i, r.depth + 1);
                    let k = self.src.range(self.cfg.sub.0, self.cfg.sub.1);
                    self.body(&mut b, k);
                    let ow = self.finish_block(&mut b, &o);
                    self.put_outputs(&b, ow);
                }
                self.wire(n, &v);
                r.ops.push(n);
                let o = outs(&self.h, n);
                r.wires.extend(o);
                true
            }
            W::Cond if !deep => {
                let c = self.class(r, &t_b());
                let v = self.some(r);
                let ot: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let (o, odd) = self.returns(&v);
                if odd {
                    self.bad(Works, May);
                }
                let with = self.src.chance(1, 4);
                let rows: Vec<Vec<Type>> = if with { vec![vec![t_r()], vec![t_f(), t_r()]] } else { vec![vec![], vec![]] };
                let c = if with {
                    let t = self.src.below(2);
                    let vals: Vec<Wire> = rows[t].iter().map(|t| self.class(r, t)).collect();
                    let tag = ops::Tag::new(t, rows.iter().map(|x| row(x)).collect());
                    self.put(r, tag, &vals)[0].clone()
                } else {
                    c
                };
                let n = self.h.add_node_with_parent(r.parent, ops::Conditional { sum_rows: rows.iter().map(|x| row(x)).collect(), other_inputs: row(&ot), outputs: row(&o) });
                for rw in &rows {
                    let ins: Vec<Type> = rw.iter().chain(&ot).cloned().collect();
                    let case = self.h.add_node_with_parent(n, ops::Case { signature: sig(&ins, &o) });
                    let mut b = new_region(&mut self.h, case, &ins, r.depth + 1);
                    let k = self.src.range(self.cfg.sub.0, self.cfg.sub.1);
                    self.body(&mut b, k);
                    self.finish(&mut b, &o);
                }
                let mut a = vec![c];
                a.extend(v);
                self.wire(n, &a);
                r.ops.push(n);
                let o = outs(&self.h, n);
                r.wires.extend(o);
                true
            }
            W::Loop if !deep => {
                let iters = self.src.range(1, 3);
                let v = self.some(r);
                let rt: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let out = self.src.flip();
                let ji = vec![t_i(6)];
                let jo: Vec<Type> = if out { vec![t_r()] } else { vec![] };
                let n = self.h.add_node_with_parent(r.parent, ops::TailLoop { just_inputs: row(&ji), just_outputs: row(&jo), rest: row(&rt) });
                let ins: Vec<Type> = ji.iter().chain(&rt).cloned().collect();
                let mut b = new_region(&mut self.h, n, &ins, r.depth + 1);
                let cnt = b.wires.remove(0);
                self.mult *= iters;
                let k = self.src.range(self.cfg.sub.0, self.cfg.sub.1);
                self.body(&mut b, k);
                self.mult /= iters;
                let one = self.konst(&mut b, c_i(6, 1));
                let lim = self.konst(&mut b, c_i(6, iters as u64));
                let c1 = self.put(&mut b, xop("arithmetic.int", "iadd", &[nat(6)]), &[cnt, one])[0].clone();
                let go = self.put(&mut b, xop("arithmetic.int", "ilt_u", &[nat(6)]), &[c1.clone(), lim])[0].clone();
                let jv = self.class(&mut b, &t_r());
                let vt = vec![t_i(6), t_r()];
                let st = t_sum(vec![ji.clone(), jo.clone()]);
                let cond = self.h.add_node_with_parent(b.parent, ops::Conditional { sum_rows: vec![TypeRow::new(); 2], other_inputs: row(&vt), outputs: row(&[st.clone()]) });
                for i in 0..2 {
                    let case = self.h.add_node_with_parent(cond, ops::Case { signature: sig(&vt, &[st.clone()]) });
                    let mut cr = new_region(&mut self.h, case, &vt, b.depth + 1);
                    let vals: Vec<Wire> = if i == 1 { vec![cr.wires[0].clone()] } else if out { vec![cr.wires[1].clone()] } else { vec![] };
                    let o = self.put(&mut cr, ops::Tag::new(1 - i, vec![row(&ji), row(&jo)]), &vals);
                    set_outputs(&mut self.h, &cr, &o);
                }
                self.wire(cond, &[go, c1, jv]);
                let s = outs(&self.h, cond)[0].clone();
                let mut ow = self.finish_block(&mut b, &rt);
                ow[0] = s;
                self.put_outputs(&b, ow);
                let zero = self.konst(r, c_i(6, 0));
                let mut a = vec![zero];
                a.extend(v);
                self.wire(n, &a);
                r.ops.push(n);
                let o = outs(&self.h, n);
                r.wires.extend(o);
                self.bad(Works, May);
                true
            }
            W::Call | W::CallInd | W::Mods => {
                if self.fs.is_empty() {
                    return false;
                }
                let i = self.src.below(self.fs.len());
                let f = self.fs[i].clone();
                self.call(r, &f, k)
            }
            W::Measure => {
                if self.unitary && !self.src.chance(self.cfg.wrong as u64, 1000) {
                    return false;
                }
                let Some(v) = self.take_q(r, 1) else { return false };
                let o = self.put(r, q("Measure"), &v);
                r.wires.extend(o);
                self.bad(No, No);
                true
            }
            W::Alloc => {
                if self.unitary && !self.src.chance(self.cfg.wrong as u64, 1000) {
                    return false;
                }
                let Some(v) = self.take_q(r, 1) else { return false };
                self.put(r, q("QFree"), &v);
                let o = self.put(r, q("QAlloc"), &[]);
                r.wires.extend(o);
                self.bad(No, No);
                true
            }
            W::ArrOp => {
                // reverse the order of two elements
                let Some(i) = self.find(r, |t| arr_of(t).is_some_and(|(_, n, _)| n == 2) && has_qubit(t)) else { return false };
                let w = r.wires.remove(i);
                let (k, n, t) = arr_of(&w.t).unwrap();
                let (i, j) = (self.src.below(2) as u64, self.src.below(2) as u64);
                let (i, j) = (self.konst(r, c_u(i)), self.konst(r, c_u(j)));
                let at = w.t.clone();
                let s = self.put(r, xop(k.ext(), "swap", &[nat(n), ta(&t)]), &[w, i, j])[0].clone();
                // both outcomes hold the array
                let rows = vec![vec![at.clone()], vec![at.clone()]];
                let c = self.h.add_node_with_parent(r.parent, ops::Conditional { sum_rows: rows.iter().map(|x| row(x)).collect(), other_inputs: TypeRow::new(), outputs: row(&[at.clone()]) });
                self.wire(c, &[s]);
                for rw in &rows {
                    let case = self.h.add_node_with_parent(c, ops::Case { signature: sig(rw, &[at.clone()]) });
                    let cr = new_region(&mut self.h, case, rw, r.depth + 1);
                    let o = cr.wires.clone();
                    set_outputs(&mut self.h, &cr, &o);
                }
                r.ops.push(c);
                let o = outs(&self.h, c);
                r.wires.extend(o);
                self.bad(Works, May);
                true
            }
            _ => false,
        }
    }
    fn finish_block(&mut self, b: &mut Region, o: &[Type]) -> Vec<Wire> {
        let u = self.put(b, ops::Tag::new(0, vec![TypeRow::new()]), &[])[0].clone();
        let mut ow = vec![u];
        ow.extend(self.finish(b, o));
        // the outputs were set without the branch
        for p in self.h.node_inputs(b.output).collect::<Vec<_>>() {
            self.h.disconnect(b.output, p);
        }
        ow
    }
    fn put_outputs(&mut self, b: &Region, ow: Vec<Wire>) {
        set_outputs(&mut self.h, b, &ow);
    }
    fn supply(&mut self, r: &mut Region, ts: &[Type]) -> Option<Vec<Wire>> {
        let need: usize = ts.iter().map(qubits_in).sum();
        let have: usize = r.wires.iter().map(|w| qubits_in(&w.t)).sum();
        if need > have {
            return None;
        }
        while r.wires.iter().filter(|w| is_q(&w.t)).count() < need {
            let i = self.find(r, |t| has_qubit(t) && !is_q(t)).unwrap();
            let w = r.wires.remove(i);
            self.unpack(r, w);
        }
        let mut v = vec![];
        for t in ts {
            let w = if is_q(t) {
                self.take_q(r, 1).unwrap().remove(0)
            } else if let Some((k, n, _)) = arr_of(t) {
                let x = self.take_q(r, n as usize).unwrap();
                self.put(r, xop(k.ext(), "new_array", &[nat(n), ta(&t_q())]), &x)[0].clone()
            } else {
                self.class(r, t)
            };
            v.push(w);
        }
        Some(v)
    }
    pub fn call(&mut self, r: &mut Region, f: &F, k: W) -> bool {
        if self.size + self.mult * f.size > 150 {
            return false;
        }
        let ins: Vec<Type> = f.l.iter().chain(&f.r).cloned().collect();
        let s = Signature::new(row(&ins), row(&f.l));
        if k != W::Mods {
            let Some(v) = self.supply(r, &ins) else { return false };
            self.size += self.mult * f.size;
            self.bad(f.ctrl, f.dag);
            self.verdict = self.verdict.max(f.here);
            self.mixes |= f.mixes;
            if k == W::Call {
                let c = ops::Call::try_new(s.into(), vec![]).unwrap();
                let p = c.called_function_port();
                let n = self.h.add_node_with_parent(r.parent, c);
                self.h.connect(f.node, 0, n, p);
                self.wire(n, &v);
                r.ops.push(n);
                let o = outs(&self.h, n);
                r.wires.extend(o);
            } else {
                let l = self.load_fn(r, f, s.clone());
                let mut a = vec![l];
                a.extend(v);
                let o = self.put(r, ops::CallIndirect { signature: s }, &a);
                r.wires.extend(o);
            }
            return true;
        }
        // a chain of modifiers
        let mut chain = vec![];
        let mut nc = 0;
        let len = self.src.range(1, 3);
        for _ in 0..len {
            chain.push(if self.cfg.power && self.src.chance(1, 30) {
                M::Power(self.src.below(3) as u64)
            } else if self.cfg.dagger && (f.quantum || f.l.is_empty()) && self.src.chance(2, 5) {
                M::Dagger
            } else {
                let k = self.src.range(0, self.cfg.max_ctrl.saturating_sub(nc).min(3));
                nc += k;
                M::Ctrl(k)
            });
        }
        let mut l = f.l.clone();
        for m in &chain {
            if let M::Ctrl(k) = m {
                l.insert(0, t_arr(AK::Array, *k as u64, t_q()));
            }
        }
        let ins: Vec<Type> = l.iter().chain(&f.r).cloned().collect();
        let Some(v) = self.supply(r, &ins) else { return false };
        self.size += self.mult * f.size;
        let mut w = self.load_fn(r, f, s);
        let mut cur = f.l.clone();
        let (mut any_c, mut dag, mut pow) = (false, false, false);
        for m in &chain {
            w = match m {
                M::Ctrl(k) => {
                    let o = self.put(r, xop("tket.modifier", "ControlModifier", &[nat(*k as u64), lst(&cur), lst(&f.r)]), &[w]);
                    cur.insert(0, t_arr(AK::Array, *k as u64, t_q()));
                    any_c |= *k > 0;
                    self.feats.insert(format!("ctrl{k}"));
                    o
                }
                M::Dagger => {
                    dag = !dag;
                    self.feats.insert("dagger".into());
                    self.put(r, xop("tket.modifier", "DaggerModifier", &[lst(&cur), lst(&f.r)]), &[w])
                }
                M::Power(p) => {
                    pow = true;
                    let p = self.konst(r, c_i(6, *p));
                    self.put(r, xop("tket.modifier", "PowerModifier", &[lst(&cur), lst(&f.r)]), &[w, p])
                }
            }[0]
            .clone();
        }
        let mut a = vec![w];
        a.extend(v);
        let o = self.put(r, ops::CallIndirect { signature: Signature::new(row(&ins), row(&l)) }, &a);
        r.wires.extend(o);
        self.modified += 1;
        self.total_ctrl = self.total_ctrl.max(nc);
        let mut here = f.here.min(May);
        if any_c {
            here = here.max(f.ctrl);
        }
        if dag {
            here = here.max(f.dag);
        }
        if pow || (chain.len() > 1 && chain.iter().all(|m| matches!(m, M::Dagger)) && !dag) {
            // an adjoint of an adjoint still needs a function that has one
            here = here.max(May);
        }
        if !any_c && !dag {
            here = here.max(if f.ctrl.max(f.dag) == Works { Works } else { May });
        }
        self.verdict = self.verdict.max(here);
        // what a further modifier around this function meets
        let (c2, d2) = (f.ctrl.max(if dag { f.dag } else { Works }), if dag { May.min(f.dag).max(if any_c { f.ctrl } else { Works }) } else { f.dag.max(if any_c { f.ctrl } else { Works }) });
        self.bad(c2, d2);
        self.mixes |= f.mixes;
        if f.mixes {
            self.bad(Works, May);
        }
        if pow {
            self.bad(May, May);
        }
        true
    }
    fn load_fn(&mut self, r: &mut Region, f: &F, s: Signature) -> Wire {
        let l = ops::LoadFunction::try_new(s.into(), vec![]).unwrap();
        let ln = self.h.add_node_with_parent(r.parent, l);
        self.h.connect(f.node, 0, ln, 0);
        r.ops.push(ln);
        outs(&self.h, ln)[0].clone()
    }
    pub fn function(&mut self, i: usize) {
        let pure = self.src.chance(1, 10);
        let mut l = vec![];
        if pure {
            l.push(self.src.choose(&[t_r(), t_f()]));
        } else {
            let lo = if self.src.chance(1, 12) { 0 } else { 1 };
            let k = self.src.range(lo, 3);
            let mut nq = 0;
            for _ in 0..k {
                let t = if self.cfg.arrays && self.src.chance(1, 4) {
                    let n = self.src.range(1, 2) as u64;
                    let k = self.src.choose(&[AK::Array, AK::Borrow, AK::Value]);
                    t_arr(k, n, t_q())
                } else {
                    t_q()
                };
                if nq + qubits_in(&t) <= self.cfg.max_l {
                    nq += qubits_in(&t);
                    l.push(t);
                }
            }
        }
        let mut rt = vec![];
        for _ in 0..self.src.below(3) {
            rt.push(self.src.choose(&[t_r(), t_b(), t_f()]));
        }
        let n = self.src.range(self.cfg.ops.0, self.cfg.ops.1);
        self.define(&format!("f{i}"), l, rt, |b, r| {
            if pure {
                for _ in 0..n {
                    b.emit(r, W::Class);
                }
            } else {
                b.body(r, n)
            }
        });
    }
    pub fn define(&mut self, name: &str, l: Vec<Type>, rt: Vec<Type>, body: impl FnOnce(&mut Self, &mut Region)) {
        (self.ctrl, self.dag, self.size, self.mult, self.unitary, self.verdict, self.mixes) = (Works, Works, 0, 1, true, Works, false);
        let ins: Vec<Type> = l.iter().chain(&rt).cloned().collect();
        let root = self.h.module_root();
        let f = self.h.add_node_with_parent(root, ops::FuncDefn::new(name, Signature::new(row(&ins), row(&l))));
        let quantum = l.iter().any(has_qubit);
        let mut r = new_region(&mut self.h, f, &ins, 0);
        body(self, &mut r);
        self.finish(&mut r, &l);
        // functions on qubits say what may be done to them; classical ones need not
        if quantum || l.is_empty() || self.src.flip() {
            self.h.set_metadata(f, "unitary", 7);
        }
        if !quantum && !l.is_empty() {
            self.feats.insert("classical function".into());
        }
        let mixes = self.mixes || (!quantum && !l.is_empty());
        self.fs.push(F { node: f, l, r: rt, ctrl: self.ctrl, dag: self.dag, here: self.verdict, mixes, quantum, size: self.size.max(1) });
    }
    /// Functions often say only that they can be modified in the ways in which they are.
    fn trim_flags(&mut self) {
        let h = &self.h;
        let home = |mut n: Node| {
            while !matches!(h.get_optype(n), ops::OpType::FuncDefn(_)) {
                n = h.get_parent(n)?;
            }
            Some(n)
        };
        // (function that uses, function used, modifiers applied)
        let mut uses: Vec<(Node, Node, u64)> = vec![];
        for f in &self.fs {
            for (u, _) in h.linked_inputs(f.node, OutgoingPort::from(0)) {
                let Some(g) = home(u) else { continue };
                let mut k = 0;
                if matches!(h.get_optype(u), ops::OpType::LoadFunction(_)) {
                    let mut todo = vec![u];
                    while let Some(n) = todo.pop() {
                        for (m, _) in h.linked_inputs(n, OutgoingPort::from(0)) {
                            match h.get_optype(m) {
                                ops::OpType::CallIndirect(_) => {}
                                ops::OpType::ExtensionOp(e) => {
                                    k |= match &e.unqualified_id()[..] {
                                        "DaggerModifier" => 1,
                                        "ControlModifier" => 2,
                                        "PowerModifier" => 4,
                                        _ => 7,
                                    };
                                    todo.push(m);
                                }
                                _ => k |= 7,
                            }
                        }
                    }
                }
                uses.push((g, f.node, k));
            }
        }
        let mut need: std::collections::BTreeMap<Node, u64> = Default::default();
        loop {
            let mut more = false;
            for (g, f, k) in &uses {
                let k = k | need.get(g).copied().unwrap_or(0);
                let e = need.entry(*f).or_default();
                more |= *e | k != *e;
                *e |= k;
            }
            if !more {
                break;
            }
        }
        let fs: Vec<Node> = self.fs.iter().map(|f| f.node).collect();
        for f in fs {
            if self.h.get_metadata(f, "unitary").is_some() && self.src.flip() {
                let k = need.get(&f).copied().unwrap_or(0) | self.src.choose(&[0u64, 0, 1, 2, 4]);
                self.h.set_metadata(f, "unitary", k);
                self.feats.insert("minimal flags".into());
            }
        }
    }
    /// The entry point: `body` works on `nq` qubits and some classical inputs.
    pub fn main(&mut self, nq: usize, body: impl FnOnce(&mut Self, &mut Region)) -> (Node, Vec<Type>, Vec<Type>) {
        (self.ctrl, self.dag, self.size, self.mult, self.unitary, self.verdict) = (Works, Works, 0, 1, false, Works);
        let mut ins = vec![t_q(); nq];
        for _ in 0..self.src.below(3) {
            let t = self.src.choose(&[t_r(), t_b(), t_f()]);
            ins.push(t);
        }
        let mut o = vec![t_q(); nq];
        if self.src.flip() {
            o.push(t_b());
        }
        let root = self.h.module_root();
        let f = self.h.add_node_with_parent(root, ops::FuncDefn::new_vis("main", Signature::new(row(&ins), row(&o)), hugr_core::Visibility::Public));
        let mut r = new_region(&mut self.h, f, &ins, 0);
        body(self, &mut r);
        self.finish(&mut r, &o);
        self.trim_flags();
        self.h.set_entrypoint(f);
        self.h.use_extensions(REG.iter().cloned().collect::<Vec<_>>());
        (f, ins, o)
    }
}
