//! Random typed HUGR programs.
use crate::gen::Src;
use crate::hb::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::constant::Value;
use hugr::ops::{self, OpType};
use hugr::types::{EdgeKind, Signature, Term, Type, TypeRow};
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    G1,
    GRot,
    G2,
    CRz,
    G3,
    Phase,
    Alloc,
    TryAlloc,
    Free,
    Reset,
    Meas,
    MeasFree,
    Rot,
    Flt,
    Log,
    TB,
    Int,
    Conv,
    Tup,
    Untup,
    TagOp,
    Noop,
    Barrier,
    Dfg,
    Cond,
    Loop,
    CfgN,
    Call,
    CallInd,
    Arr,
    ArrOp,
    Bor,
    ResOp,
    ResArr,
    StateRes,
    Unknown,
    Decl,
    QRz,
    QPx,
    QZz,
    QMeas,
    QMeasReset,
    QReset,
    QFree,
    Lazy,
    Fut,
    RtBarrier,
    Order,
    Panic,
    Const,
    UnwrapSum,
    RngOp,
    Shot,
    DropOp,
    SArr,
    Print,
    Ext,
}
use K::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub w: Vec<(K, usize)>,
    pub ops: (usize, usize),
    pub sub_ops: (usize, usize),
    pub depth: usize,
    pub max_qubits: usize,
    pub max_measures: usize,
    /// input types of functions with weights
    pub ins: Vec<(Type, usize)>,
    pub n_ins: (usize, usize),
    pub funcs: usize,
    /// values of angles: 0 multiples of a quarter, 1 anything, 2 mixed
    pub angles: u8,
    /// angles may be computed (not just constants)
    pub computed_angles: bool,
    pub symbols: bool,
    /// constants may live outside the region and be shared
    pub const_away: bool,
    /// leftover linear values are always outputs
    pub keep: bool,
    /// all linear values returned in the order of the inputs they come from, where possible
    pub chain_events: bool,
    /// more array element types
    pub arr_kinds: Vec<AK>,
    pub borrow_qubits: bool,
    pub out_copy: usize,
    /// bool-typed array elements etc. use tket.bool
    pub panics: bool,
    /// linear outputs keep their order
    pub ordered_outs: bool,
    /// polymorphic/unused functions
    pub private_funcs: bool,
    /// no integer operations that hugr-llvm compiles wrongly or not at all
    pub plain_ints: bool,
    /// regions use copyable values of the regions around them
    pub ext_edges: bool,
}
impl Cfg {
    pub fn new(w: &[(K, usize)]) -> Cfg {
        Cfg {
            w: w.to_vec(),
            ops: (0, 12),
            sub_ops: (0, 4),
            depth: 2,
            max_qubits: 5,
            max_measures: 5,
            ins: vec![(t_q(), 6), (t_b(), 1), (t_f(), 1), (t_r(), 1)],
            n_ins: (1, 4),
            funcs: 0,
            angles: 2,
            computed_angles: false,
            symbols: false,
            const_away: false,
            keep: false,
            chain_events: false,
            arr_kinds: vec![AK::Array, AK::Borrow],
            borrow_qubits: true,
            out_copy: 2,
            panics: false,
            ordered_outs: false,
            private_funcs: false,
            plain_ints: false,
            ext_edges: true,
        }
    }
    pub fn without(mut self, ks: &[K]) -> Cfg {
        self.w.retain(|(k, _)| !ks.contains(k));
        self
    }
    pub fn with(mut self, ks: &[(K, usize)]) -> Cfg {
        self.w.extend_from_slice(ks);
        self
    }
}
pub const PURE_GATES: &[(K, usize)] = &[(G1, 8), (GRot, 5), (G2, 8), (CRz, 2), (G3, 1)];

#[derive(Clone, Debug)]
pub struct Func {
    pub node: Node,
    pub ins: Vec<Type>,
    pub outs: Vec<Type>,
    pub decl: bool,
    pub measures: usize,
    pub events: usize,
}

pub struct G<'s> {
    pub src: &'s mut Src,
    pub cfg: Cfg,
    pub h: Hugr,
    pub funcs: Vec<Func>,
    pub measures: usize,
    pub live: usize,
    pub events: usize,
    pub feats: BTreeSet<K>,
    pub consts: Vec<Node>,
    pub mult: usize,
    pub n_ops: usize,
    pub cur_func: Option<Node>,
    tags: usize,
}

pub struct Program {
    pub h: Hugr,
    pub main: Node,
    pub ins: Vec<Type>,
    pub outs: Vec<Type>,
    pub feats: BTreeSet<K>,
    pub events: usize,
    pub measures: usize,
    pub n_ops: usize,
}

pub fn program(src: &mut Src, cfg: &Cfg) -> Program {
    let mut g = G::new(src, cfg.clone());
    g.cfg.ext_edges = cfg.ext_edges && g.src.chance(1, 3);
    let nf = if cfg.funcs > 0 { g.src.range(0, cfg.funcs) } else { 0 };
    for i in 0..nf {
        let save = (g.measures, g.events);
        g.measures = cfg.max_measures.saturating_sub(2);
        g.events = 0;
        let mut f = g.function(&format!("f{i}"), true);
        f.measures = g.measures.saturating_sub(cfg.max_measures.saturating_sub(2));
        f.events = g.events;
        (g.measures, g.events) = save;
        g.funcs.push(f);
    }
    let f = g.function("main", false);
    let G { mut h, feats, events, measures, n_ops, .. } = g;
    h.set_entrypoint(f.node);
    h.use_extensions(REG.iter().cloned().collect::<Vec<_>>());
    Program { h, main: f.node, ins: f.ins, outs: f.outs, feats, events, measures, n_ops }
}

/// A complete program: `main` of `program`, called by a function `entry` without inputs and outputs, which makes the
/// arguments and reports the results.
pub fn closed_program(src: &mut Src, cfg: &Cfg) -> Program {
    let p = program(src, cfg);
    let Program { h, main, ins, outs, feats, events, measures, n_ops } = p;
    let name = src.choose(&["entry", "main", "start.it", "λ"]);
    let mut g = G::new(src, cfg.clone());
    g.h = h;
    g.tags = 2000;
    g.events = events;
    let root = g.h.module_root();
    let e = g.h.add_node_with_parent(root, ops::FuncDefn::new_vis(name, Signature::new(TypeRow::new(), TypeRow::new()), hugr_core::Visibility::Public));
    if name == "main" {
        let s = Signature::new(row(&ins), row(&outs));
        set_op(&mut g.h, main, ops::FuncDefn::new("inner", s));
    }
    let mut r = new_region(&mut g.h, e, &[], 0);
    let mut args = vec![];
    for t in &ins {
        let w = g.make(&mut r, t);
        args.push(if is_q(t) { g.turn(&mut r, w) } else { w });
    }
    let f = Func { node: main, ins, outs, decl: false, measures: 0, events: 0 };
    let v = g.call(&mut r, &f, &args, false);
    r.wires.clear();
    let mut last = if events > 0 && cfg.chain_events { r.ops.last().copied() } else { None };
    for w in v {
        g.report(&mut r, w, &mut last);
    }
    set_outputs(&mut g.h, &r, &[]);
    let G { mut h, .. } = g;
    h.set_entrypoint(e);
    h.use_extensions(REG.iter().cloned().collect::<Vec<_>>());
    Program { h, main: e, ins: vec![], outs: vec![], feats, events, measures, n_ops }
}

impl<'s> G<'s> {
    /// Some rotation of a qubit.
    fn turn(&mut self, r: &mut Region, w: Wire) -> Wire {
        let a = self.src.float();
        let b = self.src.float();
        let (a, b) = (self.constant(r, c_f(3.0 * a)), self.constant(r, c_f(3.0 * b)));
        self.raw(r, qs("PhasedX"), &[w, a, b])[0].clone()
    }
    fn result(&mut self, r: &mut Region, name: &str, width: Option<u64>, w: Wire, last: &mut Option<Node>) {
        let mut a = vec![self.tag()];
        a.extend(width.map(nat));
        self.raw(r, xop("tket.result", name, &a), &[w]);
        let n = *r.ops.last().unwrap();
        if self.cfg.chain_events {
            if let Some(l) = *last {
                self.h.add_other_edge(l, n);
            }
            *last = Some(n);
        }
    }
    fn report(&mut self, r: &mut Region, w: Wire, last: &mut Option<Node>) {
        let t = w.t.clone();
        if is_q(&t) {
            let w = self.turn(r, w);
            let b = self.raw(r, qs("Measure"), &[w])[0].clone();
            return self.report(r, b, last);
        }
        if t == t_b() {
            return self.result(r, "result_bool", None, w, last);
        }
        if t == t_tb() {
            let b = self.raw(r, xop("tket.bool", "read", &[]), &[w])[0].clone();
            return self.report(r, b, last);
        }
        if t == t_f() {
            return self.result(r, "result_f64", None, w, last);
        }
        if t == t_r() {
            let f = self.raw(r, xop("tket.rotation", "to_halfturns", &[]), &[w])[0].clone();
            return self.report(r, f, last);
        }
        if t == t_u() {
            let f = self.raw(r, xop("arithmetic.conversions", "ifromusize", &[]), &[w])[0].clone();
            return self.report(r, f, last);
        }
        if t == t_i(6) {
            let n = self.src.choose(&["result_int", "result_uint"]);
            return self.result(r, n, Some(6), w, last);
        }
        if let Some((k, n, el)) = arr_of(&t) {
            for x in self.raw(r, xop(k.ext(), "unpack", &[nat(n), ta(&el)]), &[w]) {
                self.report(r, x, last);
            }
            return;
        }
        if let Some((e, _)) = ext_name(&t) {
            if e == "tket.futures" {
                let Some(Term::Runtime(x)) = t.as_extension().unwrap().args().first() else { panic!() };
                let b = self.raw(r, xop("tket.futures", "Read", &[ta(x)]), &[w])[0].clone();
                return self.report(r, b, last);
            }
        }
        if let Some(ts) = tuple_of(&t) {
            for x in self.raw(r, xop("prelude", "UnpackTuple", &[lst(&ts)]), &[w]) {
                self.report(r, x, last);
            }
            return;
        }
        if let Some(rows) = sum_rows(&t) {
            let c = self.h.add_node_with_parent(r.parent, ops::Conditional { sum_rows: rows.iter().map(|x| row(x)).collect(), other_inputs: TypeRow::new(), outputs: TypeRow::new() });
            self.h.connect(w.n, OutgoingPort::from(w.p), c, IncomingPort::from(0));
            for rw in &rows {
                let case = self.h.add_node_with_parent(c, ops::Case { signature: sig(rw, &[]) });
                let mut cr = new_region(&mut self.h, case, rw, r.depth + 1);
                let mut l = None;
                let k = self.constant(&mut cr, c_b(true));
                self.result(&mut cr, "result_bool", None, k, &mut l);
                for x in std::mem::take(&mut cr.wires) {
                    if x.n == cr.input {
                        self.report(&mut cr, x, &mut l);
                    }
                }
                set_outputs(&mut self.h, &cr, &[]);
            }
            r.ops.push(c);
            if self.cfg.chain_events {
                if let Some(l) = *last {
                    self.h.add_other_edge(l, c);
                }
                *last = Some(c);
            }
            return;
        }
        self.discard(r, w)
    }
    pub fn new(src: &'s mut Src, cfg: Cfg) -> G<'s> {
        G { src, cfg, h: Hugr::new(), funcs: vec![], measures: 0, live: 0, events: 0, feats: BTreeSet::new(), consts: vec![], mult: 1, n_ops: 0, cur_func: None, tags: 0 }
    }
    pub fn random_ins(&mut self) -> Vec<Type> {
        let n = self.src.range(self.cfg.n_ins.0, self.cfg.n_ins.1);
        let ws: Vec<usize> = self.cfg.ins.iter().map(|x| x.1).collect();
        let mut v = vec![];
        let mut nq = 0;
        for _ in 0..n {
            let t = self.cfg.ins[self.src.weighted(&ws)].0.clone();
            nq += qubits_in(&t);
            if nq > self.cfg.max_qubits {
                nq -= qubits_in(&t);
                continue;
            }
            v.push(t);
        }
        v
    }
    pub fn function(&mut self, name: &str, helper: bool) -> Func {
        let ins = self.random_ins();
        let root = self.h.module_root();
        let f = if helper {
            self.h.add_node_with_parent(root, ops::FuncDefn::new(name, Signature::new(row(&ins), TypeRow::new())))
        } else {
            self.h.add_node_with_parent(root, ops::FuncDefn::new_vis(name, Signature::new(row(&ins), TypeRow::new()), hugr_core::Visibility::Public))
        };
        self.cur_func = Some(f);
        let mut r = new_region(&mut self.h, f, &ins, 0);
        self.live = ins.iter().map(qubits_in).sum();
        let n = if helper { self.src.range(self.cfg.sub_ops.0, self.cfg.sub_ops.1) } else { self.src.range(self.cfg.ops.0, self.cfg.ops.1) };
        if helper {
            r.depth = self.cfg.depth.saturating_sub(1);
        }
        self.body(&mut r, n);
        let outs = self.finish(&mut r, None);
        let s = Signature::new(row(&ins), row(&outs));
        if helper {
            set_op(&mut self.h, f, ops::FuncDefn::new(name, s));
        } else {
            set_op(&mut self.h, f, ops::FuncDefn::new_vis(name, s, hugr_core::Visibility::Public));
        }
        self.cur_func = None;
        Func { node: f, ins, outs, decl: false, measures: 0, events: 0 }
    }

    pub fn body(&mut self, r: &mut Region, n: usize) {
        // the first choice is to do nothing, so that operations shrink away
        let mut ws: Vec<usize> = self.cfg.w.iter().map(|x| x.1).collect();
        ws.insert(0, 1);
        for _ in 0..n {
            let i = self.src.weighted(&ws);
            if i == 0 {
                continue;
            }
            let k = self.cfg.w[i - 1].0;
            let before = (self.events, r.ops.len());
            if self.emit(r, k) {
                self.feats.insert(k);
                self.n_ops += 1;
            }
            if self.events > before.0 {
                // every node added here that may contain an event, in order
                let new: Vec<Node> = r.ops[before.1..].to_vec();
                for n in new {
                    if has_event(&self.h, n) {
                        if self.cfg.chain_events {
                            if let Some(p) = r.events.last() {
                                self.h.add_other_edge(*p, n);
                            }
                        }
                        r.events.push(n);
                    }
                }
            }
        }
    }

    // ---- values ----
    pub fn can_measure(&self, k: usize) -> bool {
        self.measures + k * self.mult <= self.cfg.max_measures
    }
    fn took_measure(&mut self) {
        self.measures += self.mult;
    }
    pub fn find(&mut self, r: &Region, f: impl Fn(&Type) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..r.wires.len()).filter(|i| f(&r.wires[*i].t)).collect();
        if c.is_empty() {
            None
        } else {
            // prefer recent wires somewhat
            if c.len() > 1 && self.src.chance(1, 3) {
                return Some(*c.last().unwrap());
            }
            Some(c[self.src.below(c.len())])
        }
    }
    pub fn grab(&mut self, r: &mut Region, i: usize) -> Wire {
        if r.wires[i].t.copyable() {
            r.wires[i].clone()
        } else {
            r.wires.remove(i)
        }
    }
    pub fn push(&mut self, r: &mut Region, ws: Vec<Wire>) {
        r.wires.extend(ws);
    }
    /// Adds an op and makes its outputs available.
    pub fn op(&mut self, r: &mut Region, o: OpType, ins: &[Wire]) -> Vec<Wire> {
        let o = add(&mut self.h, r, o, ins);
        r.wires.extend(o.iter().cloned());
        o
    }
    /// Adds an op whose outputs are handed to the caller.
    pub fn raw(&mut self, r: &mut Region, o: OpType, ins: &[Wire]) -> Vec<Wire> {
        add(&mut self.h, r, o, ins)
    }
    pub fn take_qubits(&mut self, r: &mut Region, n: usize) -> Option<Vec<Wire>> {
        let have = r.wires.iter().filter(|w| is_q(&w.t)).count();
        if have < n && self.live + (n - have) > self.cfg.max_qubits {
            return None;
        }
        if have < n && !self.may_alloc() {
            return None;
        }
        let mut v = vec![];
        for _ in 0..n {
            let w = match self.find(r, is_q) {
                Some(i) => self.grab(r, i),
                None => self.make(r, &t_q()),
            };
            v.push(w);
        }
        Some(v)
    }
    fn may_alloc(&self) -> bool {
        self.cfg.w.iter().any(|(k, _)| *k == Alloc)
    }
    pub fn constant(&mut self, r: &mut Region, v: Value) -> Wire {
        self.feats.insert(Const);
        if self.cfg.const_away {
            // reuse a load in this region
            let t = v.get_type();
            let c: Vec<Wire> = r.loaded.iter().filter(|(_, w)| w.t == t).map(|x| x.1.clone()).collect();
            if !c.is_empty() && self.src.chance(1, 4) {
                return self.src.choose(&c);
            }
            // another load of a shared constant
            let c: Vec<Node> = self.consts.iter().copied().filter(|n| matches!(self.h.get_optype(*n), OpType::Const(c) if c.get_type() == t)).collect();
            if !c.is_empty() && self.src.chance(1, 3) {
                let c = self.src.choose(&c);
                let w = load(&mut self.h, r, c);
                r.loaded.push((c, w.clone()));
                return w;
            }
            let at = match self.src.below(3) {
                0 => r.parent,
                1 => self.h.module_root(),
                _ => self.cur_func.unwrap_or(r.parent),
            };
            let c = self.h.add_node_with_parent(at, ops::Const::new(v));
            if at == self.h.module_root() || Some(at) == self.cur_func {
                if at == self.h.module_root() {
                    self.consts.push(c);
                }
            }
            let w = load(&mut self.h, r, c);
            r.loaded.push((c, w.clone()));
            return w;
        }
        let at = r.parent;
        load_const(&mut self.h, r, v, at)
    }
    pub fn angle(&mut self) -> f64 {
        if self.cfg.angles != 0 && self.src.chance(1, 8) {
            let k = self.src.irange(-12, 12) as f64;
            return match self.src.below(3) {
                0 => k * std::f64::consts::PI / 12.0,
                1 => k * 1e-7,
                _ => k * 100.25,
            };
        }
        match self.cfg.angles {
            0 => self.src.irange(-8, 8) as f64 / 4.0,
            1 => self.src.irange(-4000, 4000) as f64 / 1000.0,
            _ => {
                if self.src.flip() {
                    self.src.irange(-8, 8) as f64 / 4.0
                } else {
                    self.src.irange(-4000, 4000) as f64 / 1000.0
                }
            }
        }
    }
    pub fn want(&mut self, r: &mut Region, t: &Type) -> Wire {
        let lin = !t.copyable();
        if !lin && self.cfg.ext_edges && r.depth > 0 && self.src.chance(1, 3) {
            if let Some(w) = self.outer(r, t) {
                return w;
            }
        }
        let have = r.wires.iter().any(|w| w.t == *t);
        if have && (lin || self.src.chance(3, 4)) {
            let i = self.find(r, |x| x == t).unwrap();
            return self.grab(r, i);
        }
        self.make(r, t)
    }
    /// A value of a region around this one, used directly.
    fn outer(&mut self, r: &Region, t: &Type) -> Option<Wire> {
        if is_fn(t) {
            return None;
        }
        self.outer_where(r, |x| x == t)
    }
    fn outer_where(&mut self, r: &Region, f: impl Fn(&Type) -> bool) -> Option<Wire> {
        let mut found = vec![];
        let mut at = r.parent;
        while matches!(self.h.get_optype(at), OpType::DFG(_) | OpType::Case(_) | OpType::Conditional(_) | OpType::TailLoop(_)) {
            let up = self.h.get_parent(at).unwrap();
            if !matches!(self.h.get_optype(at), OpType::Case(_)) {
                for n in self.h.children(up) {
                    let op = self.h.get_optype(n);
                    for p in 0..op.value_output_count() {
                        let Some(EdgeKind::Value(x)) = op.port_kind(OutgoingPort::from(p)) else { continue };
                        if n != at && x.copyable() && f(&x) && out_order(&self.h, n) {
                            found.push((n, p, x, at));
                        }
                    }
                }
            }
            at = up;
        }
        if found.is_empty() {
            return None;
        }
        let (n, p, t, at) = self.src.choose(&found);
        let o = self.h.get_optype(n).other_output_port().unwrap();
        if !self.h.linked_inputs(n, o).any(|(m, _)| m == at) {
            self.h.add_other_edge(n, at);
        }
        self.feats.insert(Ext);
        Some(Wire { n, p, t })
    }
    /// Like [want] but never an existing linear value.
    pub fn make(&mut self, r: &mut Region, t: &Type) -> Wire {
        if is_q(t) {
            self.live += 1;
            return self.raw(r, q("QAlloc"), &[])[0].clone();
        }
        if *t == t_b() {
            let b = self.src.flip();
            return self.constant(r, c_b(b));
        }
        if *t == t_tb() {
            if self.src.flip() {
                let b = self.want(r, &t_b());
                return self.op(r, xop("tket.bool", "make_opaque", &[]), &[b])[0].clone();
            }
            let b = self.src.flip();
            return self.constant(r, c_tb(b));
        }
        if *t == t_f() {
            let x = self.angle();
            return self.constant(r, c_f(x));
        }
        if *t == t_r() {
            if self.cfg.symbols && self.src.chance(1, 3) {
                let s = self.src.choose(&["a", "b", "2*a", "a + b/2"]);
                return self.op(r, xop("tket.quantum", "symbolic_angle", &[Term::String(s.into())]), &[])[0].clone();
            }
            if self.cfg.computed_angles && self.src.chance(1, 3) {
                if self.src.flip() {
                    let f = self.want(r, &t_f());
                    return self.op(r, xop("tket.rotation", "from_halfturns_unchecked", &[]), &[f])[0].clone();
                }
                let a = self.want(r, &t_r());
                let b = self.want(r, &t_r());
                return self.op(r, xop("tket.rotation", "radd", &[]), &[a, b])[0].clone();
            }
            let x = self.angle();
            return self.constant(r, c_r(x));
        }
        if *t == t_u() {
            let x = self.src.below(5) as u64;
            return self.constant(r, c_u(x));
        }
        if *t == t_s() {
            return self.constant(r, c_s("hello"));
        }
        if let Some((e, n)) = ext_name(t) {
            if e == "arithmetic.int.types" {
                let w = int_width(t);
                let m = if w >= 3 { 200 } else { 1 };
                let x = self.src.below(m) as u64;
                return self.constant(r, c_i(w, x));
            }
            if e == "prelude" && n == "error" {
                return self.constant(r, c_err(3, "boom"));
            }
            if e == "tket.futures" {
                let qb = match self.find(r, is_q) {
                    Some(i) => self.grab(r, i),
                    None => self.make(r, &t_q()),
                };
                self.took_measure();
                self.live = self.live.saturating_sub(1);
                return self.raw(r, qs("LazyMeasure"), &[qb])[0].clone();
            }
        }
        if let Some((k, n, el)) = arr_of(t) {
            let els: Vec<Wire> = (0..n).map(|_| self.want(r, &el)).collect();
            return self.raw(r, xop(k.ext(), "new_array", &[nat(n), ta(&el)]), &els)[0].clone();
        }
        if let Some(rows) = sum_rows(t) {
            if rows.is_empty() {
                panic!("value of the empty type");
            }
            let tag = self.src.below(rows.len());
            let vs: Vec<Wire> = rows[tag].iter().map(|t| self.want(r, t)).collect();
            if rows.len() == 1 && self.src.flip() {
                return self.raw(r, xop("prelude", "MakeTuple", &[lst(&rows[0])]), &vs)[0].clone();
            }
            return self.raw(r, ops::Tag::new(tag, rows.iter().map(|x| row(x)).collect()).into(), &vs)[0].clone();
        }
        // something opaque
        self.raw(r, xop("verif.test", "op", &[Term::String(format!("mk {t}")), lst(&[]), lst(&[t.clone()])]), &[])[0].clone()
    }
    /// Ends the life of a linear value.
    pub fn discard(&mut self, r: &mut Region, w: Wire) {
        let t = w.t.clone();
        if t.copyable() {
            return;
        }
        if is_q(&t) {
            self.live = self.live.saturating_sub(1);
            self.took_measure();
            let op = if self.cfg.w.iter().any(|x| x.0 == QFree) && self.src.flip() { qs("QFree") } else { q("QFree") };
            self.raw(r, op, &[w]);
            return;
        }
        if let Some((k, n, el)) = arr_of(&t) {
            if el.copyable() && self.src.flip() {
                self.raw(r, xop(k.ext(), "discard", &[nat(n), ta(&el)]), &[w]);
                return;
            }
            let v = self.raw(r, xop(k.ext(), "unpack", &[nat(n), ta(&el)]), &[w]);
            for x in v {
                self.discard(r, x);
            }
            return;
        }
        if let Some((e, _)) = ext_name(&t) {
            if e == "tket.futures" {
                let Some(Term::Runtime(x)) = t.as_extension().unwrap().args().first() else { panic!() };
                self.raw(r, xop("tket.futures", "Free", &[ta(x)]), &[w]);
                return;
            }
            if e == "tket.qsystem.random" {
                self.raw(r, xop("tket.qsystem.random", "DeleteRNGContext", &[]), &[w]);
                return;
            }
        }
        if let Some(rows) = sum_rows(&t) {
            if rows.len() == 1 {
                let v = self.raw(r, xop("prelude", "UnpackTuple", &[lst(&rows[0])]), &[w]);
                for x in v {
                    self.discard(r, x);
                }
                return;
            }
            let c = self.h.add_node_with_parent(r.parent, ops::Conditional { sum_rows: rows.iter().map(|x| row(x)).collect(), other_inputs: TypeRow::new(), outputs: TypeRow::new() });
            self.h.connect(w.n, OutgoingPort::from(w.p), c, IncomingPort::from(0));
            for rw in &rows {
                let case = self.h.add_node_with_parent(c, ops::Case { signature: sig(rw, &[]) });
                let mut cr = new_region(&mut self.h, case, rw, r.depth + 1);
                for x in std::mem::take(&mut cr.wires) {
                    self.discard(&mut cr, x);
                }
            }
            r.ops.push(c);
            return;
        }
        panic!("cannot discard {t}");
    }
    /// Connects the outputs; their types.
    pub fn finish(&mut self, r: &mut Region, target: Option<&[Type]>) -> Vec<Type> {
        let mut outs: Vec<Wire> = vec![];
        match target {
            Some(ts) => {
                for t in ts {
                    let w = self.want(r, t);
                    outs.push(w);
                }
                let left: Vec<Wire> = r.wires.iter().filter(|w| !w.t.copyable()).cloned().collect();
                for w in left {
                    self.discard(r, w);
                }
            }
            None => {
                let left: Vec<Wire> = r.wires.iter().filter(|w| !w.t.copyable()).cloned().collect();
                for w in left {
                    let k = qubits_in(&w.t);
                    if !self.cfg.keep && self.can_measure(k) && self.src.chance(1, 5) {
                        self.discard(r, w);
                    } else {
                        outs.push(w);
                    }
                }
                let k = self.src.range(0, self.cfg.out_copy);
                for _ in 0..k {
                    if let Some(i) = self.find(r, |t| t.copyable() && !is_fn(t)) {
                        outs.push(r.wires[i].clone());
                    }
                }
                if !self.cfg.ordered_outs {
                    self.src.shuffle(&mut outs);
                }
            }
        }
        r.wires.clear();
        set_outputs(&mut self.h, r, &outs);
        if self.cfg.chain_events {
            if let Some(n) = r.events.last() {
                self.h.add_other_edge(*n, r.output);
            }
        }
        outs.into_iter().map(|w| w.t).collect()
    }
    /// A random selection of available values to pass to a nested region.
    pub fn pass(&mut self, r: &mut Region, max: usize) -> Vec<Wire> {
        let n = self.src.range(0, max);
        let mut v = vec![];
        for _ in 0..n {
            if let Some(i) = self.find(r, |t| !is_fn(t)) {
                let w = self.grab(r, i);
                v.push(w);
            }
        }
        v
    }
    fn sub_n(&mut self) -> usize {
        self.src.range(self.cfg.sub_ops.0, self.cfg.sub_ops.1)
    }

    pub fn emit(&mut self, r: &mut Region, k: K) -> bool {
        match k {
            Ext => false,
            G1 => {
                let g = self.src.choose(&["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg"]);
                self.gate(r, g, 1, 0)
            }
            GRot => {
                let g = self.src.choose(&["Rz", "Rx", "Ry"]);
                self.gate(r, g, 1, 1)
            }
            G2 => {
                let g = self.src.choose(&["CX", "CZ", "CY"]);
                self.gate(r, g, 2, 0)
            }
            CRz => self.gate(r, "CRz", 2, 1),
            G3 => self.gate(r, "Toffoli", 3, 0),
            Phase => {
                let a = self.want(r, &t_r());
                self.op(r, xop("tket.global_phase", "global_phase", &[]), &[a]);
                true
            }
            Alloc => {
                if self.live >= self.cfg.max_qubits {
                    return false;
                }
                self.live += 1;
                self.op(r, q("QAlloc"), &[]);
                true
            }
            TryAlloc => {
                if self.live >= self.cfg.max_qubits {
                    return false;
                }
                self.live += 1;
                let op = if self.cfg.w.iter().any(|x| x.0 == QRz) && self.src.flip() { qs("TryQAlloc") } else { q("TryQAlloc") };
                let w = self.raw(r, op, &[])[0].clone();
                self.unwrap_opt(r, w);
                true
            }
            Free => {
                if !self.can_measure(1) {
                    return false;
                }
                let Some(i) = self.find(r, is_q) else { return false };
                let w = self.grab(r, i);
                self.took_measure();
                self.live = self.live.saturating_sub(1);
                self.raw(r, q("QFree"), &[w]);
                true
            }
            Reset | Meas | MeasFree | QMeas | QMeasReset | QReset | Lazy | QFree => {
                if !self.can_measure(1) {
                    return false;
                }
                let Some(i) = self.find(r, is_q) else { return false };
                let w = self.grab(r, i);
                self.took_measure();
                let op = match k {
                    Reset => q("Reset"),
                    Meas => q("Measure"),
                    MeasFree => q("MeasureFree"),
                    QMeas => qs("Measure"),
                    QMeasReset => qs("MeasureReset"),
                    QReset => qs("Reset"),
                    QFree => qs("QFree"),
                    _ => {
                        if self.src.flip() {
                            qs("LazyMeasure")
                        } else {
                            qs("LazyMeasureReset")
                        }
                    }
                };
                let o = self.op(r, op, &[w]);
                if !o.iter().any(|w| is_q(&w.t)) {
                    self.live = self.live.saturating_sub(1);
                }
                true
            }
            Rot => {
                match self.src.below(4) {
                    0 => {
                        let a = self.want(r, &t_r());
                        let b = self.want(r, &t_r());
                        self.op(r, xop("tket.rotation", "radd", &[]), &[a, b]);
                    }
                    1 => {
                        let a = self.want(r, &t_f());
                        self.op(r, xop("tket.rotation", "from_halfturns_unchecked", &[]), &[a]);
                    }
                    2 => {
                        let a = self.want(r, &t_r());
                        self.op(r, xop("tket.rotation", "to_halfturns", &[]), &[a]);
                    }
                    _ => {
                        let a = self.want(r, &t_f());
                        self.op(r, xop("tket.rotation", "from_halfturns", &[]), &[a]);
                    }
                }
                true
            }
            Flt => {
                let (n, a) = self.src.choose(&[("fadd", 2), ("fsub", 2), ("fmul", 2), ("fneg", 1), ("fabs", 1), ("fmax", 2), ("fmin", 2), ("flt", 2), ("fge", 2), ("feq", 2)]);
                let v: Vec<Wire> = (0..a).map(|_| self.want(r, &t_f())).collect();
                self.op(r, xop("arithmetic.float", n, &[]), &v);
                true
            }
            Log => {
                let (n, a) = self.src.choose(&[("And", 2), ("Or", 2), ("Not", 1), ("Eq", 2), ("Xor", 2)]);
                let v: Vec<Wire> = (0..a).map(|_| self.want(r, &t_b())).collect();
                self.op(r, xop("logic", n, &[]), &v);
                true
            }
            TB => {
                let (n, a) = self.src.choose(&[("read", 1), ("and", 2), ("or", 2), ("not", 1), ("eq", 2), ("xor", 2), ("make_opaque", 0)]);
                if a == 0 {
                    let b = self.want(r, &t_b());
                    self.op(r, xop("tket.bool", n, &[]), &[b]);
                } else {
                    let v: Vec<Wire> = (0..a).map(|_| self.want(r, &t_tb())).collect();
                    self.op(r, xop("tket.bool", n, &[]), &v);
                }
                true
            }
            Int => {
                let w = self.src.choose(&[6u8, 5, 3]);
                let (mut n, a) = self.src.choose(&[("iadd", 2), ("isub", 2), ("imul", 2), ("ineg", 1), ("iand", 2), ("ixor", 2), ("ilt_u", 2), ("ieq", 2), ("ige_s", 2), ("imax_u", 2), ("ishl", 2), ("idivmod_checked_u", 2)]);
                if self.cfg.plain_ints && (n == "ishl" || n == "idivmod_checked_u" || n == "imax_u" && w < 6) {
                    n = "ior";
                }
                let v: Vec<Wire> = (0..a).map(|_| self.want(r, &t_i(w))).collect();
                self.op(r, xop("arithmetic.int", n, &[nat(w as u64)]), &v);
                true
            }
            Conv => {
                match self.src.below(5) {
                    0 => {
                        let x = self.want(r, &t_i(6));
                        self.op(r, xop("arithmetic.conversions", "convert_u", &[nat(6)]), &[x]);
                    }
                    1 => {
                        let x = self.want(r, &t_b());
                        self.op(r, xop("arithmetic.conversions", "ifrombool", &[]), &[x]);
                    }
                    2 => {
                        let x = self.want(r, &t_i(0));
                        self.op(r, xop("arithmetic.conversions", "itobool", &[]), &[x]);
                    }
                    3 => {
                        let x = self.want(r, &t_u());
                        self.op(r, xop("arithmetic.conversions", "ifromusize", &[]), &[x]);
                    }
                    _ => {
                        let x = self.want(r, &t_f());
                        self.op(r, xop("arithmetic.conversions", "trunc_s", &[nat(5)]), &[x]);
                    }
                }
                true
            }
            Tup => {
                let v = self.pass(r, 3);
                let ts: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                self.op(r, xop("prelude", "MakeTuple", &[lst(&ts)]), &v);
                true
            }
            Untup => {
                let outer = if self.cfg.ext_edges && r.depth > 0 && self.src.flip() { self.outer_where(r, |t| tuple_of(t).is_some()) } else { None };
                let w = match outer {
                    Some(w) => w,
                    None => {
                        let Some(i) = self.find(r, |t| tuple_of(t).is_some()) else { return false };
                        self.grab(r, i)
                    }
                };
                let ts = tuple_of(&w.t).unwrap();
                self.op(r, xop("prelude", "UnpackTuple", &[lst(&ts)]), &[w]);
                true
            }
            TagOp => {
                let v = self.pass(r, 2);
                let ts: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let other = if self.src.flip() { vec![] } else { vec![self.src.choose(&[t_f(), t_b(), t_tb()])] };
                let (tag, rows) = if self.src.flip() { (1, vec![other, ts]) } else { (0, vec![ts, other]) };
                self.op(r, ops::Tag::new(tag, rows.iter().map(|x| row(x)).collect()).into(), &v);
                true
            }
            UnwrapSum => {
                let Some(i) = self.find(r, |t| sum_rows(t).is_some_and(|r| r.len() > 1) && *t != t_b()) else { return false };
                let w = self.grab(r, i);
                self.conditional(r, Some(w))
            }
            Noop => {
                let Some(i) = self.find(r, |_| true) else { return false };
                let w = self.grab(r, i);
                let t = w.t.clone();
                self.op(r, xop("prelude", "Noop", &[ta(&t)]), &[w]);
                true
            }
            Barrier => {
                let v = self.pass(r, 4);
                if v.is_empty() {
                    return false;
                }
                let ts: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                self.op(r, xop("prelude", "Barrier", &[lst(&ts)]), &v);
                true
            }
            Dfg => {
                if r.depth >= self.cfg.depth {
                    return false;
                }
                let v = self.pass(r, 4);
                let ins: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                let n = self.h.add_node_with_parent(r.parent, ops::DFG { signature: sig(&ins, &[]) });
                let mut sr = new_region(&mut self.h, n, &ins, r.depth + 1);
                let k = self.sub_n();
                self.body(&mut sr, k);
                let outs = self.finish(&mut sr, None);
                set_op(&mut self.h, n, ops::DFG { signature: sig(&ins, &outs) });
                self.attach(r, n, &v);
                true
            }
            Cond => {
                if r.depth >= self.cfg.depth {
                    return false;
                }
                self.conditional(r, None)
            }
            Loop => {
                if r.depth >= self.cfg.depth {
                    return false;
                }
                self.tail_loop(r)
            }
            CfgN => {
                if r.depth >= self.cfg.depth {
                    return false;
                }
                self.cfg_node(r)
            }
            Call | CallInd => {
                let fs: Vec<Func> = self.funcs.iter().filter(|f| self.measures + f.measures * self.mult <= self.cfg.max_measures).cloned().collect();
                if fs.is_empty() {
                    return false;
                }
                let f = self.src.choose(&fs);
                if !self.can_supply(r, &f.ins) {
                    return false;
                }
                self.measures += f.measures * self.mult;
                self.events += f.events;
                let v: Vec<Wire> = f.ins.iter().map(|t| self.want(r, t)).collect();
                let nin: usize = f.ins.iter().map(qubits_in).sum();
                let nout: usize = f.outs.iter().map(qubits_in).sum();
                self.live = (self.live + nout).saturating_sub(nin);
                self.call(r, &f, &v, k == CallInd);
                true
            }
            Decl => {
                let fs: Vec<Func> = self.funcs.iter().filter(|f| f.decl).cloned().collect();
                let f = if !fs.is_empty() && self.src.flip() {
                    self.src.choose(&fs)
                } else {
                    let nq = self.src.below(3);
                    let mut ins = vec![t_q(); nq];
                    let mut outs = ins.clone();
                    for t in [t_b(), t_f()] {
                        if self.src.flip() {
                            ins.push(t.clone());
                        }
                        if self.src.flip() {
                            outs.push(t);
                        }
                    }
                    let root = self.h.module_root();
                    let n = self.h.add_node_with_parent(root, ops::FuncDecl::new_vis(format!("ext{}", self.funcs.len()), Signature::new(row(&ins), row(&outs)), hugr_core::Visibility::Public));
                    let f = Func { node: n, ins, outs, decl: true, measures: 0, events: 1 };
                    self.funcs.push(f.clone());
                    f
                };
                if !self.can_supply(r, &f.ins) {
                    return false;
                }
                self.events += 1;
                let v: Vec<Wire> = f.ins.iter().map(|t| self.want(r, t)).collect();
                self.call(r, &f, &v, false);
                true
            }
            Arr => {
                let ks = self.cfg.arr_kinds.clone();
                let kind = self.src.choose(&ks);
                let mut ts = vec![t_q(), t_f(), t_b()];
                if self.cfg.w.iter().any(|x| x.0 == TB) {
                    ts.push(t_tb());
                }
                let el = self.src.choose(&ts);
                let n = self.src.below(4);
                if is_q(&el) {
                    let Some(v) = self.take_qubits(r, n) else { return false };
                    self.op(r, xop(kind.ext(), "new_array", &[nat(n as u64), ta(&el)]), &v);
                } else {
                    let v: Vec<Wire> = (0..n).map(|_| self.want(r, &el)).collect();
                    self.op(r, xop(kind.ext(), "new_array", &[nat(n as u64), ta(&el)]), &v);
                }
                true
            }
            ArrOp => {
                let Some(i) = self.find(r, |t| arr_of(t).is_some()) else { return false };
                let w = self.grab(r, i);
                self.array_op(r, w)
            }
            Bor => {
                let Some(i) = self.find(r, |t| matches!(arr_of(t), Some((AK::Borrow, n, _)) if n > 0)) else { return false };
                let w = self.grab(r, i);
                self.borrow_seq(r, w)
            }
            ResOp => {
                let iw = self.src.choose(&[6u8, 6, 5, 4, 3]);
                let (name, t) = match self.src.below(4) {
                    0 => ("result_bool", t_b()),
                    1 => ("result_uint", t_i(iw)),
                    2 => ("result_int", t_i(iw)),
                    _ => ("result_f64", t_f()),
                };
                let w = self.want(r, &t);
                let tag = self.tag();
                let args = match name {
                    "result_uint" | "result_int" => vec![tag, nat(iw as u64)],
                    _ => vec![tag],
                };
                self.events += 1;
                self.op(r, xop("tket.result", name, &args), &[w]);
                true
            }
            ResArr => {
                let iw = self.src.choose(&[6u8, 6, 5, 4, 3]);
                let (name, t) = match self.src.below(4) {
                    0 => ("result_array_bool", t_b()),
                    1 => ("result_array_f64", t_f()),
                    2 => ("result_array_uint", t_i(iw)),
                    _ => ("result_array_int", t_i(iw)),
                };
                let n = self.src.below(3) as u64;
                let a = self.want(r, &t_arr(AK::Array, n, t));
                let tag = self.tag();
                let args = match name {
                    "result_array_uint" | "result_array_int" => vec![tag, nat(n), nat(iw as u64)],
                    _ => vec![tag, nat(n)],
                };
                self.events += 1;
                self.op(r, xop("tket.result", name, &args), &[a]);
                true
            }
            StateRes => {
                let n = self.src.below(3);
                let Some(v) = self.take_qubits(r, n) else { return false };
                let a = self.raw(r, xop("collections.array", "new_array", &[nat(n as u64), ta(&t_q())]), &v);
                let tag = self.tag();
                self.events += 1;
                let a = self.raw(r, xop("tket.debug", "StateResult", &[tag, nat(n as u64)]), &a);
                self.op(r, xop("collections.array", "unpack", &[nat(n as u64), ta(&t_q())]), &a);
                true
            }
            Print => {
                let w = self.want(r, &t_s());
                self.events += 1;
                self.op(r, xop("prelude", "print", &[]), &[w]);
                true
            }
            Unknown => {
                let v = self.pass(r, 3);
                let ts: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
                // the same linear values come out; some copyable ones
                let mut outs: Vec<Type> = ts.iter().filter(|t| !t.copyable()).cloned().collect();
                if self.src.chance(1, 3) {
                    outs.push(self.src.choose(&[t_b(), t_f(), t_r()]));
                }
                let tag = self.src.choose(&["u", "v"]);
                let name = self.src.choose(&["op", "op2"]);
                self.op(r, xop("verif.test", name, &[Term::String(tag.into()), lst(&ts), lst(&outs)]), &v);
                true
            }
            QRz => {
                let Some(v) = self.take_qubits(r, 1) else { return false };
                let a = self.want(r, &t_f());
                self.op(r, qs("Rz"), &[v[0].clone(), a]);
                true
            }
            QPx => {
                let Some(v) = self.take_qubits(r, 1) else { return false };
                let a = self.want(r, &t_f());
                let b = self.want(r, &t_f());
                self.op(r, qs("PhasedX"), &[v[0].clone(), a, b]);
                true
            }
            QZz => {
                let Some(v) = self.take_qubits(r, 2) else { return false };
                let a = self.want(r, &t_f());
                self.op(r, qs("ZZPhase"), &[v[0].clone(), v[1].clone(), a]);
                true
            }
            Fut => {
                let Some(i) = self.find(r, |t| ext_name(t).is_some_and(|e| e.0 == "tket.futures")) else { return false };
                let w = self.grab(r, i);
                let Some(Term::Runtime(x)) = w.t.as_extension().unwrap().args().first().cloned() else { return false };
                let n = self.src.choose(&["Read", "Dup", "Free"]);
                self.op(r, xop("tket.futures", n, &[ta(&x)]), &[w]);
                true
            }
            RtBarrier => {
                let n = 1 + self.src.below(3);
                let Some(v) = self.take_qubits(r, n) else { return false };
                let a = self.raw(r, xop("collections.array", "new_array", &[nat(n as u64), ta(&t_q())]), &v);
                let a = self.raw(r, xop("tket.qsystem", "RuntimeBarrier", &[nat(n as u64)]), &a);
                self.op(r, xop("collections.array", "unpack", &[nat(n as u64), ta(&t_q())]), &a);
                true
            }
            Order => {
                if r.ops.len() < 2 {
                    return false;
                }
                let j = 1 + self.src.below(r.ops.len() - 1);
                let i = self.src.below(j);
                let (a, b) = (r.ops[i], r.ops[j]);
                if out_order(&self.h, a) && in_order(&self.h, b) {
                    self.h.add_other_edge(a, b);
                    return true;
                }
                false
            }
            Panic => {
                // panic in a branch that is rarely taken
                let b = self.want(r, &t_b());
                let c = self.h.add_node_with_parent(r.parent, ops::Conditional { sum_rows: vec![row(&[]), row(&[])], other_inputs: TypeRow::new(), outputs: TypeRow::new() });
                self.h.connect(b.n, OutgoingPort::from(b.p), c, IncomingPort::from(0));
                for i in 0..2 {
                    let case = self.h.add_node_with_parent(c, ops::Case { signature: sig(&[], &[]) });
                    let mut cr = new_region(&mut self.h, case, &[], r.depth + 1);
                    if i == 1 {
                        let (s, m) = self.src.choose(&[(7, "boom"), (1, "bye"), (1000, "boom"), (42, "boom")]);
                        let e = self.constant(&mut cr, c_err(s, m));
                        let op = self.src.choose(&["panic", "panic", "exit"]);
                        self.raw(&mut cr, xop("prelude", op, &[lst(&[]), lst(&[])]), &[e]);
                    }
                }
                r.ops.push(c);
                self.events += 1;
                true
            }
            Const => {
                let t = self.src.choose(&[t_f(), t_b(), t_r(), t_u(), t_i(6)]);
                let w = self.make(r, &t);
                r.wires.push(w);
                true
            }
            RngOp => {
                if r.depth > 0 || self.tags >= 1000 {
                    return false;
                }
                self.tags += 1000;
                let s = self.want(r, &t_i(6));
                let o = self.raw(r, xop("tket.qsystem.random", "NewRNGContext", &[]), &[s])[0].clone();
                let Some(c) = self.unwrap_opt_raw(r, o) else { return false };
                let mut c = c;
                for _ in 0..self.src.below(3) {
                    match self.src.below(3) {
                        0 => {
                            let v = self.raw(r, xop("tket.qsystem.random", "RandomInt", &[]), &[c]);
                            c = v[1].clone();
                            r.wires.push(v[0].clone());
                        }
                        1 => {
                            let v = self.raw(r, xop("tket.qsystem.random", "RandomFloat", &[]), &[c]);
                            c = v[1].clone();
                            r.wires.push(v[0].clone());
                        }
                        _ => {
                            let b = self.want(r, &t_i(5));
                            let v = self.raw(r, xop("tket.qsystem.random", "RandomIntBounded", &[]), &[c, b]);
                            c = v[1].clone();
                            r.wires.push(v[0].clone());
                        }
                    }
                }
                self.raw(r, xop("tket.qsystem.random", "DeleteRNGContext", &[]), &[c]);
                true
            }
            Shot => {
                self.op(r, xop("tket.qsystem.utils", "GetCurrentShot", &[]), &[]);
                true
            }
            DropOp => {
                let Some(i) = self.find(r, |t| !has_qubit(t) && !is_fn(t) && !ext_name(t).is_some_and(|e| e.0 == "tket.futures")) else { return false };
                let w = self.grab(r, i);
                let t = w.t.clone();
                self.op(r, xop("tket.guppy", "drop", &[ta(&t)]), &[w]);
                true
            }
            SArr => {
                use hugr::std_extensions::collections::static_array::StaticArrayValue;
                let tb = self.cfg.w.iter().any(|x| x.0 == TB) && self.src.flip();
                let n = self.src.below(4);
                let (ty, vals): (Type, Vec<Value>) = if tb { (t_tb(), (0..n).map(|_| c_tb(self.src.flip())).collect()) } else { (t_f(), (0..n).map(|_| c_f(self.angle())).collect()) };
                self.tags += 1;
                let v: Value = StaticArrayValue::try_new(format!("sa{}", self.tags), ty.clone(), vals).unwrap().into();
                let a = self.constant(r, v);
                if self.src.flip() {
                    let i = self.want(r, &t_u());
                    self.op(r, xop("collections.static_array", "get", &[ta(&ty)]), &[a, i]);
                } else {
                    self.op(r, xop("collections.static_array", "len", &[ta(&ty)]), &[a]);
                }
                true
            }
        }
    }
    fn tag(&mut self) -> Term {
        self.tags += 1;
        let t = match self.src.below(16) {
            0 => self.src.choose(&["测试字符串测试字符串一", "测试字符串测试字符串二", "long tag 11", "long tag 12", "a\nb\t\"", ":", "0", "\0a", "\0b"]).to_string(),
            1..=3 => "same".to_string(),
            _ => format!("r{}", self.tags),
        };
        Term::String(t)
    }
    pub fn can_supply(&self, r: &Region, ts: &[Type]) -> bool {
        let need = ts.iter().filter(|t| is_q(t)).count();
        let have = r.wires.iter().filter(|w| is_q(&w.t)).count();
        let extra: usize = ts.iter().filter(|t| !is_q(t)).map(qubits_in).sum();
        let new = need.saturating_sub(have) + extra;
        new == 0 || (self.may_alloc() && self.live + new <= self.cfg.max_qubits)
    }
    pub fn gate(&mut self, r: &mut Region, g: &str, nq: usize, na: usize) -> bool {
        let Some(mut v) = self.take_qubits(r, nq) else { return false };
        for _ in 0..na {
            let a = self.want(r, &t_r());
            v.push(a);
        }
        self.op(r, q(g), &v);
        true
    }
    /// Connects a finished container node into the region.
    pub fn attach(&mut self, r: &mut Region, n: Node, v: &[Wire]) -> Vec<Wire> {
        for (i, w) in v.iter().enumerate() {
            self.h.connect(w.n, OutgoingPort::from(w.p), n, IncomingPort::from(i));
        }
        r.ops.push(n);
        let o = outs(&self.h, n);
        r.wires.extend(o.iter().cloned());
        o
    }
    pub fn call(&mut self, r: &mut Region, f: &Func, v: &[Wire], indirect: bool) -> Vec<Wire> {
        let s = Signature::new(row(&f.ins), row(&f.outs));
        if indirect {
            let l = ops::LoadFunction::try_new(s.clone().into(), vec![]).unwrap();
            let ln = self.h.add_node_with_parent(r.parent, l);
            self.h.connect(f.node, 0, ln, 0);
            r.ops.push(ln);
            let fw = outs(&self.h, ln)[0].clone();
            let n = self.h.add_node_with_parent(r.parent, ops::CallIndirect { signature: s });
            let mut a = vec![fw];
            a.extend_from_slice(v);
            self.attach(r, n, &a)
        } else {
            let c = ops::Call::try_new(s.into(), vec![]).unwrap();
            let p = c.called_function_port();
            let n = self.h.add_node_with_parent(r.parent, c);
            self.h.connect(f.node, 0, n, p);
            self.attach(r, n, v)
        }
    }
    /// Option unwrapping through a conditional that panics on none.
    pub fn unwrap_opt(&mut self, r: &mut Region, w: Wire) {
        if let Some(w) = self.unwrap_opt_raw(r, w) {
            r.wires.push(w);
        }
    }
    pub fn unwrap_opt_raw(&mut self, r: &mut Region, w: Wire) -> Option<Wire> {
        let rows = sum_rows(&w.t)?;
        let outs_t = rows[1].clone();
        let c = self.h.add_node_with_parent(r.parent, ops::Conditional { sum_rows: rows.iter().map(|x| row(x)).collect(), other_inputs: TypeRow::new(), outputs: row(&outs_t) });
        self.h.connect(w.n, OutgoingPort::from(w.p), c, IncomingPort::from(0));
        for (i, rw) in rows.iter().enumerate() {
            let case = self.h.add_node_with_parent(c, ops::Case { signature: sig(rw, &outs_t) });
            let mut cr = new_region(&mut self.h, case, rw, r.depth + 1);
            if i == 0 {
                let e = self.constant(&mut cr, c_err(1, "none"));
                let mut a = vec![e];
                a.extend(cr.wires.clone());
                let o = self.raw(&mut cr, xop("prelude", "panic", &[lst(rw), lst(&outs_t)]), &a);
                set_outputs(&mut self.h, &cr, &o);
            } else {
                let o = cr.wires.clone();
                set_outputs(&mut self.h, &cr, &o);
            }
        }
        r.ops.push(c);
        Some(outs(&self.h, c)[0].clone())
    }
    pub fn conditional(&mut self, r: &mut Region, on: Option<Wire>) -> bool {
        let cond = match on {
            Some(w) => w,
            None => {
                // prefer an existing sum
                match self.find(r, |t| sum_rows(t).is_some_and(|r| r.len() > 1)) {
                    Some(i) => self.grab(r, i),
                    None => self.want(r, &t_b()),
                }
            }
        };
        let rows = sum_rows(&cond.t).unwrap();
        let others = self.pass(r, 3);
        let ot: Vec<Type> = others.iter().map(|w| w.t.clone()).collect();
        let c = self.h.add_node_with_parent(r.parent, ops::Conditional { sum_rows: rows.iter().map(|x| row(x)).collect(), other_inputs: row(&ot), outputs: TypeRow::new() });
        let mut out: Option<Vec<Type>> = None;
        let m0 = self.measures;
        let mut m1 = m0;
        let live = self.live;
        for rw in &rows {
            self.measures = m0;
            self.live = live;
            let ins: Vec<Type> = rw.iter().chain(&ot).cloned().collect();
            let case = self.h.add_node_with_parent(c, ops::Case { signature: sig(&ins, &[]) });
            let mut cr = new_region(&mut self.h, case, &ins, r.depth + 1);
            let k = self.sub_n();
            self.body(&mut cr, k);
            let o = self.finish(&mut cr, out.as_deref());
            set_op(&mut self.h, case, ops::Case { signature: sig(&ins, &o) });
            out = Some(o);
            m1 = m1.max(self.measures);
        }
        self.measures = m1;
        let out = out.unwrap();
        set_op(&mut self.h, c, ops::Conditional { sum_rows: rows.iter().map(|x| row(x)).collect(), other_inputs: row(&ot), outputs: row(&out) });
        let mut a = vec![cond];
        a.extend(others);
        self.attach(r, c, &a);
        true
    }
    pub fn tail_loop(&mut self, r: &mut Region) -> bool {
        // just_inputs = [counter] + ji; rest
        let iters = 1 + self.src.below(3);
        let ji = self.pass(r, 1);
        let rest = self.pass(r, 3);
        let cnt = self.constant(r, c_i(6, 0));
        let jt: Vec<Type> = std::iter::once(t_i(6)).chain(ji.iter().map(|w| w.t.clone())).collect();
        let rt: Vec<Type> = rest.iter().map(|w| w.t.clone()).collect();
        let jo: Vec<Type> = if ji.is_empty() || !ji[0].t.copyable() { ji.iter().map(|w| w.t.clone()).collect() } else { vec![] };
        let n = self.h.add_node_with_parent(r.parent, ops::TailLoop { just_inputs: row(&jt), just_outputs: row(&jo), rest: row(&rt) });
        let ins: Vec<Type> = jt.iter().chain(&rt).cloned().collect();
        let mut b = new_region(&mut self.h, n, &ins, r.depth + 1);
        let c = b.wires.remove(0);
        self.mult *= iters;
        if self.src.chance(1, 4) {
            b.wires.push(c.clone());
        }
        let k = self.sub_n();
        self.body(&mut b, k);
        // next counter and the decision
        let one = self.constant(&mut b, c_i(6, 1));
        let lim = self.constant(&mut b, c_i(6, iters as u64));
        let c1 = self.raw(&mut b, xop("arithmetic.int", "iadd", &[nat(6)]), &[c, one])[0].clone();
        let mut go = self.raw(&mut b, xop("arithmetic.int", "ilt_u", &[nat(6)]), &[c1.clone(), lim])[0].clone();
        if let Some(i) = self.find(&b, |t| *t == t_b()) {
            if self.src.flip() {
                let x = b.wires[i].clone();
                go = self.raw(&mut b, xop("logic", "And", &[]), &[go, x])[0].clone();
            }
        }
        // values for both outcomes
        let jv: Vec<Wire> = jt[1..].iter().map(|t| self.want(&mut b, t)).collect();
        let vt: Vec<Type> = std::iter::once(t_i(6)).chain(jv.iter().map(|w| w.t.clone())).collect();
        let cond = self.h.add_node_with_parent(b.parent, ops::Conditional { sum_rows: vec![row(&[]), row(&[])], other_inputs: row(&vt), outputs: row(&[t_sum(vec![jt.clone(), jo.clone()])]) });
        let st = t_sum(vec![jt.clone(), jo.clone()]);
        for i in 0..2 {
            let case = self.h.add_node_with_parent(cond, ops::Case { signature: sig(&vt, &[st.clone()]) });
            let mut cr = new_region(&mut self.h, case, &vt, b.depth + 1);
            let vals: Vec<Wire> = if i == 1 { cr.wires.clone() } else { jo.iter().enumerate().map(|(j, _)| cr.wires[1 + j].clone()).collect() };
            let tag = ops::Tag::new(1 - i, vec![row(&jt), row(&jo)]);
            let o = self.raw(&mut cr, tag.into(), &vals);
            set_outputs(&mut self.h, &cr, &o);
        }
        let mut a = vec![go, c1];
        a.extend(jv);
        let s = {
            for (i, w) in a.iter().enumerate() {
                self.h.connect(w.n, OutgoingPort::from(w.p), cond, IncomingPort::from(i));
            }
            b.ops.push(cond);
            outs(&self.h, cond)[0].clone()
        };
        let rv: Vec<Wire> = rt.iter().map(|t| self.want(&mut b, t)).collect();
        let left: Vec<Wire> = b.wires.iter().filter(|w| !w.t.copyable()).cloned().collect();
        for w in left {
            self.discard(&mut b, w);
        }
        let mut o = vec![s];
        o.extend(rv);
        set_outputs(&mut self.h, &b, &o);
        self.mult /= iters;
        let mut a = vec![cnt];
        a.extend(ji);
        a.extend(rest);
        self.attach(r, n, &a);
        true
    }
    /// entry -> (A | B) -> exit, or a chain, or a counted loop of blocks.
    pub fn cfg_node(&mut self, r: &mut Region) -> bool {
        let v = self.pass(r, 3);
        let shape = self.src.below(3);
        let cnt = if shape == 2 { Some(self.constant(r, c_i(6, 0))) } else { None };
        let v: Vec<Wire> = cnt.into_iter().chain(v).collect();
        let ins: Vec<Type> = v.iter().map(|w| w.t.clone()).collect();
        let n = self.h.add_node_with_parent(r.parent, ops::CFG { signature: sig(&ins, &[]) });
        let d = r.depth + 1;
        let unit = || ops::Tag::new(0, vec![TypeRow::new()]);
        let block = |rows: Vec<TypeRow>, i: &[Type], o: &[Type]| ops::DataflowBlock { inputs: row(i), other_outputs: row(o), sum_rows: rows };
        let entry = self.h.add_node_with_parent(n, block(vec![row(&[])], &ins, &[]));
        let exit = self.h.add_node_with_parent(n, ops::ExitBlock { cfg_outputs: TypeRow::new() });
        let outs_t: Vec<Type>;
        match shape {
            0 => {
                // chain of two
                let mut b = new_region(&mut self.h, entry, &ins, d);
                let k = self.sub_n();
                self.body(&mut b, k);
                let u = self.raw(&mut b, unit().into(), &[]);
                let mid = self.finish_block(&mut b, u[0].clone(), None);
                set_op(&mut self.h, entry, block(vec![row(&[])], &ins, &mid));
                let b2 = self.h.add_node_with_parent(n, block(vec![row(&[])], &mid, &[]));
                let mut b = new_region(&mut self.h, b2, &mid, d);
                let k = self.sub_n();
                self.body(&mut b, k);
                let u = self.raw(&mut b, unit().into(), &[]);
                outs_t = self.finish_block(&mut b, u[0].clone(), None);
                set_op(&mut self.h, b2, block(vec![row(&[])], &mid, &outs_t));
                self.h.connect(entry, 0, b2, 0);
                self.h.connect(b2, 0, exit, 0);
            }
            1 => {
                let mut b = new_region(&mut self.h, entry, &ins, d);
                let k = self.sub_n();
                self.body(&mut b, k);
                let c = self.want(&mut b, &t_b());
                let mid = self.finish_block(&mut b, c, None);
                let two = || vec![row(&[]), row(&[])];
                set_op(&mut self.h, entry, block(two(), &ins, &mid));
                let m0 = self.measures;
                let live = self.live;
                let mut out: Option<Vec<Type>> = None;
                let direct = self.src.chance(1, 3);
                let mut m1 = m0;
                if direct {
                    out = Some(mid.clone());
                }
                for i in 0..2 {
                    if direct && i == 0 {
                        self.h.connect(entry, 0, exit, 0);
                        continue;
                    }
                    self.measures = m0;
                    self.live = live;
                    let bn = self.h.add_node_with_parent(n, block(vec![row(&[])], &mid, &[]));
                    let mut b = new_region(&mut self.h, bn, &mid, d);
                    let k = self.sub_n();
                    self.body(&mut b, k);
                    let u = self.raw(&mut b, unit().into(), &[]);
                    let o = self.finish_block(&mut b, u[0].clone(), out.as_deref());
                    set_op(&mut self.h, bn, block(vec![row(&[])], &mid, &o));
                    self.h.connect(entry, i, bn, 0);
                    self.h.connect(bn, 0, exit, 0);
                    out = Some(o);
                    m1 = m1.max(self.measures);
                }
                self.measures = m1;
                outs_t = out.unwrap();
            }
            _ => {
                let iters = 1 + self.src.below(2);
                self.mult *= iters;
                let mut b = new_region(&mut self.h, entry, &ins, d);
                let c = b.wires.remove(0);
                let k = self.sub_n();
                self.body(&mut b, k);
                let one = self.constant(&mut b, c_i(6, 1));
                let lim = self.constant(&mut b, c_i(6, iters as u64));
                let c1 = self.raw(&mut b, xop("arithmetic.int", "iadd", &[nat(6)]), &[c, one])[0].clone();
                let go = self.raw(&mut b, xop("arithmetic.int", "ilt_u", &[nat(6)]), &[c1.clone(), lim])[0].clone();
                let mut o = vec![go, c1];
                for t in &ins[1..] {
                    let w = self.want(&mut b, t);
                    o.push(w);
                }
                let left: Vec<Wire> = b.wires.iter().filter(|w| !w.t.copyable()).cloned().collect();
                for w in left {
                    self.discard(&mut b, w);
                }
                set_outputs(&mut self.h, &b, &o);
                set_op(&mut self.h, entry, block(vec![row(&[]), row(&[])], &ins, &ins));
                self.h.connect(entry, 1, entry, 0);
                self.h.connect(entry, 0, exit, 0);
                outs_t = ins.clone();
                self.mult /= iters;
            }
        }
        set_op(&mut self.h, exit, ops::ExitBlock { cfg_outputs: row(&outs_t) });
        set_op(&mut self.h, n, ops::CFG { signature: sig(&ins, &outs_t) });
        self.attach(r, n, &v);
        true
    }
    fn finish_block(&mut self, r: &mut Region, s: Wire, target: Option<&[Type]>) -> Vec<Type> {
        let ts = self.finish(r, target);
        // shift by the sum
        let os: Vec<(Node, usize)> = (0..ts.len()).map(|i| self.h.single_linked_output(r.output, IncomingPort::from(i)).map(|(n, p)| (n, hugr::PortIndex::index(p))).unwrap()).collect();
        for i in 0..ts.len() {
            self.h.disconnect(r.output, IncomingPort::from(i));
        }
        let other = self.h.get_optype(r.output).other_input_port().unwrap();
        let before: Vec<Node> = self.h.linked_outputs(r.output, other).map(|x| x.0).collect();
        self.h.disconnect(r.output, other);
        let mut ws = vec![s];
        ws.extend(os.into_iter().zip(&ts).map(|((n, p), t)| Wire { n, p, t: t.clone() }));
        set_outputs(&mut self.h, r, &ws);
        for n in before {
            self.h.add_other_edge(n, r.output);
        }
        ts
    }
    pub fn array_op(&mut self, r: &mut Region, w: Wire) -> bool {
        let (k, n, el) = arr_of(&w.t).unwrap();
        let a = [nat(n), ta(&el)];
        match self.src.below(7) {
            0 => {
                self.op(r, xop(k.ext(), "unpack", &a), &[w]);
            }
            1 if el.copyable() => {
                let i = self.want(r, &t_u());
                self.op(r, xop(k.ext(), "get", &a), &[w, i]);
            }
            2 => {
                // set; the result is a sum of two rows: take both apart
                if is_q(&el) && !r.wires.iter().any(|w| is_q(&w.t)) && self.live + 1 > self.cfg.max_qubits {
                    self.op(r, xop(k.ext(), "unpack", &a), &[w]);
                    return true;
                }
                let i = self.want(r, &t_u());
                let v = self.want(r, &el);
                let o = self.raw(r, xop(k.ext(), "set", &a), &[w, i, v])[0].clone();
                self.merge_sum(r, o);
            }
            3 => {
                let i = self.want(r, &t_u());
                let j = self.want(r, &t_u());
                let o = self.raw(r, xop(k.ext(), "swap", &a), &[w, i, j])[0].clone();
                self.merge_sum(r, o);
            }
            4 if n > 0 => {
                let nm = self.src.choose(&["pop_left", "pop_right"]);
                let o = self.raw(r, xop(k.ext(), nm, &a), &[w])[0].clone();
                let c = self.unwrap_all(r, o);
                r.wires.extend(c);
            }
            5 if k != AK::Value && el.copyable() => {
                self.op(r, xop(k.ext(), "clone", &a), &[w]);
            }
            6 if k == AK::Borrow => {
                self.op(r, xop(k.ext(), "to_array", &a), &[w]);
            }
            6 if k == AK::Array => {
                self.op(r, xop("collections.borrow_arr", "from_array", &a), &[w]);
            }
            _ => r.wires.push(w),
        }
        true
    }
    /// A sum whose variants have equal rows becomes those values.
    fn merge_sum(&mut self, r: &mut Region, w: Wire) {
        let rows = sum_rows(&w.t).unwrap();
        let c = self.h.add_node_with_parent(r.parent, ops::Conditional { sum_rows: rows.iter().map(|x| row(x)).collect(), other_inputs: TypeRow::new(), outputs: row(&rows[0]) });
        for rw in &rows {
            let case = self.h.add_node_with_parent(c, ops::Case { signature: sig(rw, rw) });
            let cr = new_region(&mut self.h, case, rw, r.depth + 1);
            let o = cr.wires.clone();
            set_outputs(&mut self.h, &cr, &o);
        }
        self.attach(r, c, &[w]);
    }
    /// Unwraps variant 1 of a sum with two variants, panicking on the other.
    fn unwrap_all(&mut self, r: &mut Region, w: Wire) -> Vec<Wire> {
        self.unwrap_opt_raw(r, w.clone()).map(|w| outs(&self.h, w.n)).unwrap_or_default()
    }
    /// Borrow some elements, use them, give them back (perhaps elsewhere).
    pub fn borrow_seq(&mut self, r: &mut Region, w: Wire) -> bool {
        let (k, n, el) = arr_of(&w.t).unwrap();
        let a = [nat(n), ta(&el)];
        let mut arr = w;
        let cnt = 1 + self.src.below(n.min(2) as usize);
        let mut out: Vec<(u64, Wire, Wire)> = vec![];
        for _ in 0..cnt {
            let used: Vec<u64> = out.iter().map(|x| x.0).collect();
            let free: Vec<u64> = (0..n).filter(|i| !used.contains(i)).collect();
            let i = if self.cfg.panics && self.src.chance(1, 10) { self.src.below(n as usize + 2) as u64 } else if free.is_empty() { break } else { self.src.choose(&free) };
            let iw = self.index(r, i);
            let o = self.raw(r, xop(k.ext(), "borrow", &a), &[arr, iw.clone()]);
            arr = o[0].clone();
            out.push((i, o[1].clone(), iw));
            self.idle(r);
        }
        // use the elements
        for x in out.iter_mut() {
            if is_q(&el) && self.src.flip() {
                let g = self.src.choose(&["H", "T", "X"]);
                x.1 = self.raw(r, q(g), &[x.1.clone()])[0].clone();
            }
        }
        if is_q(&el) && out.len() == 2 && self.src.flip() {
            let o = self.raw(r, q("CX"), &[out[0].1.clone(), out[1].1.clone()]);
            out[0].1 = o[0].clone();
            out[1].1 = o[1].clone();
        }
        if self.src.chance(1, 4) {
            // give back crosswise
            if out.len() == 2 {
                let t = out[0].1.clone();
                out[0].1 = out[1].1.clone();
                out[1].1 = t;
            }
        }
        self.src.shuffle(&mut out);
        for (i, e, iw) in out {
            let i = if self.cfg.panics && self.src.chance(1, 12) { (i + 1) % n } else { i };
            let iw = if self.src.flip() { iw } else { self.index(r, i) };
            arr = self.raw(r, xop(k.ext(), "return", &a), &[arr, iw, e])[0].clone();
            self.idle(r);
        }
        r.wires.push(arr);
        true
    }
    fn idle(&mut self, r: &mut Region) {
        if self.src.chance(1, 6) {
            self.emit(r, G1);
        }
    }
    /// An index value: constant, or computed in a way that keeps its value.
    pub fn index(&mut self, r: &mut Region, i: u64) -> Wire {
        match self.src.below(6) {
            0..=3 => self.constant(r, c_u(i)),
            4 => {
                let c = self.constant(r, c_i(6, i));
                self.raw(r, xop("arithmetic.conversions", "itousize", &[]), &[c])[0].clone()
            }
            _ => {
                let c = self.constant(r, c_u(i));
                self.raw(r, xop("prelude", "Noop", &[ta(&t_u())]), &[c])[0].clone()
            }
        }
    }
}

pub fn int_width(t: &Type) -> u8 {
    match t.as_extension().unwrap().args() {
        [Term::BoundedNat(n)] => *n as u8,
        _ => 6,
    }
}
pub fn has_event(h: &Hugr, n: Node) -> bool {
    match h.get_optype(n) {
        OpType::ExtensionOp(e) => {
            let x = e.def().extension_id().to_string();
            x == "tket.result" || (x == "tket.debug") || (x == "prelude" && matches!(e.def().name().as_str(), "print" | "panic" | "exit"))
        }
        OpType::Call(_) | OpType::CallIndirect(_) => true,
        OpType::FuncDefn(_) => false,
        _ => h.children(n).any(|c| has_event(h, c)),
    }
}
