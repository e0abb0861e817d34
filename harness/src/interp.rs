//! Reference semantics of HUGR programs: an independent interpreter with an exact quantum state.
//!
//! All measurement branches are enumerated (by re-running the program with a script of outcomes); the result of a
//! program on one input is a map from classical observation (outputs and events) to a list of unnormalised states of
//! the output qubits, i.e. an exact quantum instrument.
use crate::qstate::{self as qs, inner, Mat, State, C};
use hugr::ops::constant::{Sum as CSum, Value};
use hugr::ops::dataflow::DataflowOpTrait as _;
use hugr::ops::{OpTrait, OpType};
use hugr::types::{Term, Type, TypeArg};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Q(usize),
    Sum(usize, Vec<Val>),
    Int(u8, u64),
    F(f64),
    Rot(f64),
    B(bool),
    Usize(u64),
    Str(String),
    Arr(Vec<Option<Val>>),
    List(Vec<Val>),
    Future(Box<Val>),
    Fn(FnVal),
    Err(u32, String),
    Rng(u64, u64),
    Opaque(String, Vec<Val>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Mod {
    Ctrl(usize),
    Dagger,
    Power(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub struct FnVal {
    pub node: Node,
    pub args: Vec<TypeArg>,
    pub mods: Vec<Mod>,
}
pub fn bool_v(b: bool) -> Val {
    Val::Sum(b as usize, vec![])
}
impl Val {
    pub fn as_bool(&self) -> R<bool> {
        match self {
            Val::Sum(t, v) if v.is_empty() && *t < 2 => Ok(*t == 1),
            Val::B(b) => Ok(*b),
            Val::Future(v) => v.as_bool(),
            Val::Sum(_, v) if v.len() == 1 => v[0].as_bool(),
            v => bad(format!("not a bool: {v:?}")),
        }
    }
    pub fn qubits(&self, out: &mut Vec<usize>) {
        match self {
            Val::Q(q) => out.push(*q),
            Val::Sum(_, v) | Val::List(v) | Val::Opaque(_, v) => v.iter().for_each(|x| x.qubits(out)),
            Val::Arr(v) => v.iter().flatten().for_each(|x| x.qubits(out)),
            _ => {}
        }
    }
    pub fn map_q(&self, f: &mut dyn FnMut(usize) -> usize) -> Val {
        match self {
            Val::Q(q) => Val::Q(f(*q)),
            Val::Sum(t, v) => Val::Sum(*t, v.iter().map(|x| x.map_q(f)).collect()),
            Val::List(v) => Val::List(v.iter().map(|x| x.map_q(f)).collect()),
            Val::Opaque(n, v) => Val::Opaque(n.clone(), v.iter().map(|x| x.map_q(f)).collect()),
            Val::Arr(v) => Val::Arr(v.iter().map(|x| x.as_ref().map(|x| x.map_q(f))).collect()),
            v => v.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Halt {
    /// The program stops: panic or exit.
    Panic(String),
    /// The interpreter cannot run this program (unsupported construct, limits).
    Unsupported(String),
    /// The program is not well formed (dynamic type error, use of a dead qubit): always a defect of whoever made it.
    Bad(String),
    /// This branch has probability zero.
    Zero,
}
pub type R<T> = Result<T, Halt>;
pub fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Halt::Bad(s.into()))
}
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Halt::Unsupported(s.into()))
}

#[derive(Clone, Debug)]
struct Gate {
    m: Mat,
    qs: Vec<usize>,
    ctrls: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct SimOpts {
    pub max_steps: usize,
    pub max_paths: usize,
    pub max_qubits: usize,
    /// Compare the order of events of different tags too.
    pub ordered_events: bool,
    /// panics are told apart by their message and what was reported before
    pub panic_events: bool,
    /// Values of free symbols.
    pub symbols: HashMap<String, f64>,
    pub seed: u64,
    /// Record which qubits 1: barriers, 2: runtime barriers cover.
    pub barriers: u8,
    /// Skip operations that a region's outputs, linear values and order edges do not ask for (HUGR leaves it open whether they run).
    pub needed_only: bool,
    /// Inputs of the opaque boolean type arrive as 1: plain booleans, 2: futures.
    pub lazy_inputs: u8,
    /// Do not simulate rotations by larger angles (0: no limit).
    pub max_angle: f64,
}
impl Default for SimOpts {
    fn default() -> Self {
        SimOpts { max_steps: 60_000, max_paths: 3000, max_qubits: 14, ordered_events: false, panic_events: false, symbols: HashMap::new(), seed: 1, barriers: 0, needed_only: false, lazy_inputs: 0, max_angle: 0.0 }
    }
}

pub struct Machine<'a> {
    h: &'a Hugr,
    o: &'a SimOpts,
    st: State,
    next_q: usize,
    in_qubits: usize,
    script: Vec<bool>,
    pos: usize,
    /// Outcomes taken in this run, and whether the other outcome has non-zero weight.
    taken: Vec<(bool, bool)>,
    pub events: Vec<(String, String)>,
    rec: Vec<Vec<Gate>>,
    steps: usize,
    order: HashMap<Node, Rc<Vec<Node>>>,
    depth: usize,
    /// Names given to qubits at allocation, for events about qubits.
    rng_used: bool,
    pub gate_count: usize,
}
type Env = HashMap<(Node, usize), Val>;

impl<'a> Machine<'a> {
    /// Qubits allocated by the program have no names of their own: they count.
    fn barrier_event(&mut self, mut v: Vec<usize>) {
        v.sort();
        let (a, b): (Vec<usize>, Vec<usize>) = v.into_iter().partition(|q| *q < self.in_qubits);
        if !a.is_empty() || !b.is_empty() {
            self.events.push(("barrier".into(), format!("{a:?}+{}", b.len())));
        }
    }
    fn fresh_q(&mut self) -> usize {
        self.next_q += 1;
        self.next_q - 1
    }
    fn gate(&mut self, m: Mat, q: &[usize]) -> R<()> {
        self.gate_count += 1;
        self.emit(Gate { m, qs: q.to_vec(), ctrls: vec![] })
    }
    fn emit(&mut self, g: Gate) -> R<()> {
        let mut all = g.qs.clone();
        all.extend(&g.ctrls);
        for (i, a) in all.iter().enumerate() {
            if all[..i].contains(a) {
                return bad("one qubit used twice in a gate");
            }
        }
        match self.rec.last_mut() {
            Some(r) => r.push(g),
            None => self.st.apply(&g.m, &g.qs, &g.ctrls).map_err(Halt::Bad)?,
        }
        Ok(())
    }
    fn unitary_only(&self, what: &str) -> R<()> {
        if self.rec.is_empty() {
            Ok(())
        } else {
            unsup(format!("{what} under a modifier"))
        }
    }
    fn alloc(&mut self) -> R<usize> {
        self.unitary_only("allocation")?;
        if self.st.ids.len() >= self.o.max_qubits {
            return unsup("too many qubits");
        }
        let q = self.fresh_q();
        self.st.alloc(q);
        Ok(q)
    }
    /// Measures q, choosing by script; the other branch is explored by a later run.
    fn measure(&mut self, q: usize, drop: bool) -> R<bool> {
        self.unitary_only("measurement")?;
        let w0 = self.st.weight(q, false).map_err(Halt::Bad)?;
        let w1 = self.st.weight(q, true).map_err(Halt::Bad)?;
        let b = if self.pos < self.script.len() {
            self.script[self.pos]
        } else {
            w0 < 1e-13
        };
        self.pos += 1;
        let (w, other) = if b { (w1, w0) } else { (w0, w1) };
        // A later run takes the other branch of the last outcome with `false` first: mark it explored when b.
        self.taken.push((b, !b && other >= 1e-13));
        if w < 1e-13 {
            return Err(Halt::Zero);
        }
        self.st.project(q, b, drop).map_err(Halt::Bad)?;
        Ok(b)
    }
    fn reset(&mut self, q: usize) -> R<()> {
        let b = self.measure(q, false)?;
        if b {
            self.gate(qs::x(), &[q])?;
        }
        Ok(())
    }

    fn toposort(&mut self, parent: Node) -> R<Rc<Vec<Node>>> {
        if let Some(o) = self.order.get(&parent) {
            return Ok(o.clone());
        }
        let kids: Vec<Node> = self.h.children(parent).collect();
        let idx: HashMap<Node, usize> = kids.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        let mut deg = vec![0usize; kids.len()];
        let mut succ: Vec<Vec<usize>> = vec![vec![]; kids.len()];
        for (i, n) in kids.iter().enumerate() {
            for p in self.h.node_outputs(*n) {
                for (t, _) in self.h.linked_inputs(*n, p) {
                    // lift the target to this region
                    let mut t = t;
                    let mut seen = 0;
                    while !idx.contains_key(&t) {
                        match self.h.get_parent(t) {
                            Some(p) if seen < 1000 => {
                                t = p;
                                seen += 1;
                            }
                            _ => break,
                        }
                    }
                    if let Some(j) = idx.get(&t) {
                        if *j != i {
                            succ[i].push(*j);
                            deg[*j] += 1;
                        } else {
                            // edge from a node to itself or into itself from itself
                            if self.h.get_optype(*n).tag() >= hugr::ops::OpTag::DataflowChild && !matches!(self.h.get_optype(*n), OpType::FuncDefn(_)) {
                                return bad(format!("cyclic edge at {n}"));
                            }
                        }
                    }
                }
            }
        }
        let mut ready: std::collections::BTreeSet<usize> = (0..kids.len()).filter(|i| deg[*i] == 0).collect();
        let mut out = vec![];
        while let Some(i) = ready.pop_first() {
            out.push(kids[i]);
            for j in succ[i].clone() {
                deg[j] -= 1;
                if deg[j] == 0 {
                    ready.insert(j);
                }
            }
        }
        if out.len() != kids.len() {
            return bad("cycle in a dataflow region");
        }
        if self.o.needed_only {
            let mut needed: Vec<bool> = kids.iter().map(|n| matches!(self.h.get_optype(*n), OpType::Input(_) | OpType::Output(_)) || self.must_run(*n)).collect();
            loop {
                let mut changed = false;
                for (i, n) in kids.iter().enumerate().rev() {
                    if !needed[i] && succ[i].iter().any(|j| needed[*j]) {
                        needed[i] = true;
                        changed = true;
                    }
                    if needed[i] {
                        let Some(s) = self.h.signature(*n) else { continue };
                        for (p, t) in s.output.iter().enumerate() {
                            if !t.copyable() {
                                for (m, _) in self.h.linked_inputs(*n, OutgoingPort::from(p)) {
                                    if let Some(j) = idx.get(&m) {
                                        if !needed[*j] {
                                            needed[*j] = true;
                                            changed = true;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                if !changed {
                    break;
                }
            }
            out.retain(|n| needed[idx[n]]);
        }
        let out = Rc::new(out);
        self.order.insert(parent, out.clone());
        Ok(out)
    }

    fn must_run(&self, n: Node) -> bool {
        matches!(self.h.get_optype(n), OpType::CFG(_) | OpType::TailLoop(_) | OpType::Call(_)) || self.h.children(n).any(|c| self.must_run(c))
    }
    fn input(&self, env: &Env, n: Node, p: usize) -> R<Val> {
        let Some((src, sp)) = self.h.single_linked_output(n, IncomingPort::from(p)) else {
            return bad(format!("{n} port {p} is not connected ({})", self.h.get_optype(n)));
        };
        match env.get(&(src, sp.index())) {
            Some(v) => Ok(v.clone()),
            None => bad(format!("no value for {src} port {}", sp.index())),
        }
    }
    fn inputs(&self, env: &Env, n: Node) -> R<Vec<Val>> {
        let op = self.h.get_optype(n);
        let k = op.dataflow_signature().map(|s| s.input_count()).unwrap_or(0);
        (0..k).map(|p| self.input(env, n, p)).collect()
    }

    /// Runs a dataflow region (children of `parent`) on `args`; the values given to its Output node are returned.
    fn region(&mut self, env: &mut Env, parent: Node, args: Vec<Val>, targs: &[TypeArg]) -> R<Vec<Val>> {
        let order = self.toposort(parent)?;
        let mut result = None;
        for n in order.iter().copied() {
            match self.h.get_optype(n) {
                OpType::Input(i) => {
                    if i.types.len() != args.len() {
                        return bad(format!("region {parent} takes {} inputs, given {}", i.types.len(), args.len()));
                    }
                    for (i, v) in args.iter().enumerate() {
                        env.insert((n, i), v.clone());
                    }
                }
                OpType::Output(o) => {
                    let k = o.types.len();
                    result = Some(n);
                    let _ = k;
                }
                OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
                _ => {
                    let ins = self.inputs(env, n)?;
                    let outs = self.node(env, n, ins, targs)?;
                    let want = self.h.get_optype(n).dataflow_signature().map(|s| s.output_count());
                    if want.is_some_and(|w| w != outs.len()) {
                        return bad(format!("{} gave {} outputs", self.h.get_optype(n), outs.len()));
                    }
                    for (i, v) in outs.into_iter().enumerate() {
                        env.insert((n, i), v);
                    }
                }
            }
        }
        let Some(out) = result else { return bad("region without output") };
        let k = match self.h.get_optype(out) {
            OpType::Output(o) => o.types.len(),
            _ => unreachable!(),
        };
        (0..k).map(|p| self.input(env, out, p)).collect()
    }

    fn static_src(&self, n: Node) -> R<Node> {
        self.h.static_source(n).ok_or_else(|| Halt::Bad(format!("{n} has no static source")))
    }

    fn node(&mut self, env: &mut Env, n: Node, ins: Vec<Val>, targs: &[TypeArg]) -> R<Vec<Val>> {
        self.steps += 1;
        if self.steps > self.o.max_steps {
            return unsup("too many steps");
        }
        let h = self.h;
        match h.get_optype(n) {
            OpType::DFG(_) => self.region(env, n, ins, targs),
            OpType::Conditional(_) => {
                let Some(Val::Sum(tag, vals)) = ins.first().cloned() else { return bad("conditional on a non-sum") };
                let Some(case) = h.children(n).filter(|c| h.get_optype(*c).is_case()).nth(tag) else { return bad("no such case") };
                let mut a = vals;
                a.extend_from_slice(&ins[1..]);
                self.region(env, case, a, targs)
            }
            OpType::TailLoop(tl) => {
                let (nj, _no) = (tl.just_inputs.len(), tl.just_outputs.len());
                let mut cur = ins;
                let _ = nj;
                loop {
                    self.steps += 1;
                    if self.steps > self.o.max_steps {
                        return unsup("too many steps");
                    }
                    let mut out = self.region(env, n, cur, targs)?;
                    let rest = out.split_off(1);
                    let Some(Val::Sum(tag, mut vals)) = out.pop() else { return bad("loop without a sum") };
                    vals.extend(rest);
                    if tag == 1 {
                        return Ok(vals);
                    }
                    cur = vals;
                }
            }
            OpType::CFG(_) => {
                let mut block = match h.children(n).next() {
                    Some(b) => b,
                    None => return bad("empty cfg"),
                };
                let mut cur = ins;
                loop {
                    self.steps += 1;
                    if self.steps > self.o.max_steps {
                        return unsup("too many steps");
                    }
                    match h.get_optype(block) {
                        OpType::ExitBlock(_) => return Ok(cur),
                        OpType::DataflowBlock(_) => {
                            let mut out = self.region(env, block, cur, targs)?;
                            let rest = out.split_off(1);
                            let Some(Val::Sum(tag, mut vals)) = out.pop() else { return bad("block without a sum") };
                            vals.extend(rest);
                            cur = vals;
                            let Some((next, _)) = h.single_linked_input(block, OutgoingPort::from(tag)) else {
                                return bad("block without successor");
                            };
                            block = next;
                        }
                        o => return bad(format!("{o} in a cfg")),
                    }
                }
            }
            OpType::Call(c) => {
                let f = self.static_src(n)?;
                let a: Vec<TypeArg> = c.type_args.iter().map(|t| subst(t, targs)).collect();
                self.call(&FnVal { node: f, args: a, mods: vec![] }, ins)
            }
            OpType::LoadFunction(l) => {
                let f = self.static_src(n)?;
                let a: Vec<TypeArg> = l.type_args.iter().map(|t| subst(t, targs)).collect();
                Ok(vec![Val::Fn(FnVal { node: f, args: a, mods: vec![] })])
            }
            OpType::CallIndirect(_) => {
                let mut ins = ins;
                let f = ins.remove(0);
                let Val::Fn(f) = f else { return bad("call of a non-function") };
                self.call(&f, ins)
            }
            OpType::LoadConstant(_) => {
                let c = self.static_src(n)?;
                let OpType::Const(c) = h.get_optype(c) else { return bad("constant edge from a non-constant") };
                Ok(vec![self.constant(c.value())?])
            }
            OpType::Tag(t) => Ok(vec![Val::Sum(t.tag, ins)]),
            OpType::ExtensionOp(e) => {
                let ext = e.def().extension_id().to_string();
                let name = e.def().name().to_string();
                let args: Vec<TypeArg> = e.args().iter().map(|a| subst(a, targs)).collect();
                self.ext_op(n, &ext, &name, &args, ins, e)
            }
            OpType::OpaqueOp(o) => {
                unsup(format!("opaque op {}", o.qualified_id()))
            }
            o => unsup(format!("op {o}")),
        }
    }

    pub fn call(&mut self, f: &FnVal, mut args: Vec<Val>) -> R<Vec<Val>> {
        self.depth += 1;
        if self.depth > 60 {
            return unsup("call depth");
        }
        let r = (|| {
            let mut inner_f = f.clone();
            match inner_f.mods.pop() {
                None => match self.h.get_optype(f.node) {
                    OpType::FuncDefn(_) => {
                        let mut env = Env::new();
                        self.region(&mut env, f.node, args, &f.args)
                    }
                    OpType::FuncDecl(d) => {
                        let outs = d.signature().body().output().clone();
                        let name = d.func_name().to_string();
                        let outs: Vec<Type> = outs.iter().cloned().collect();
                        self.external(&format!("fn:{name}"), &outs, args)
                    }
                    o => bad(format!("call of {o}")),
                },
                Some(Mod::Power(k)) => {
                    for _ in 0..k {
                        let out = self.call(&inner_f, args.clone())?;
                        args.splice(0..out.len(), out);
                    }
                    // The linear outputs are the leading inputs; without a run their number comes from the signature.
                    let nout = self.fn_outputs(f)?;
                    args.truncate(nout);
                    Ok(args)
                }
                Some(Mod::Ctrl(nc)) => {
                    let ctrl = args.remove(0);
                    let mut cq = vec![];
                    ctrl.qubits(&mut cq);
                    if cq.len() != nc {
                        return bad("wrong number of control qubits");
                    }
                    self.rec.push(vec![]);
                    let out = self.call(&inner_f, args);
                    let gates = self.rec.pop().unwrap();
                    let out = out?;
                    for mut g in gates {
                        g.ctrls.extend(&cq);
                        self.emit(g)?;
                    }
                    let mut r = vec![ctrl];
                    r.extend(out);
                    Ok(r)
                }
                Some(Mod::Dagger) => {
                    let mut back: HashMap<usize, usize> = HashMap::new();
                    let mut ph = vec![];
                    // placeholders for the inputs of the forward function
                    let fwd: Vec<Val> = args
                        .iter()
                        .map(|v| {
                            v.map_q(&mut |_q| {
                                self.next_q += 1;
                                ph.push(self.next_q - 1);
                                self.next_q - 1
                            })
                        })
                        .collect();
                    self.rec.push(vec![]);
                    let out = self.call(&inner_f, fwd.clone());
                    let gates = self.rec.pop().unwrap();
                    let out = out?;
                    // outputs of f are the inputs of its inverse
                    for (o, a) in out.iter().zip(&args) {
                        let (mut x, mut y) = (vec![], vec![]);
                        o.qubits(&mut x);
                        a.qubits(&mut y);
                        if x.len() != y.len() {
                            return unsup("inverse of a function that moves qubits between values");
                        }
                        if x.is_empty() && render(o, &mut vec![], None) != render(a, &mut vec![], None) {
                            return unsup("inverse of a function on classical values");
                        }
                        back.extend(x.into_iter().zip(y));
                    }
                    for g in gates.into_iter().rev() {
                        let map = |q: &usize| back.get(q).copied().unwrap_or(*q);
                        let g = Gate { m: g.m.dagger(), qs: g.qs.iter().map(map).collect(), ctrls: g.ctrls.iter().map(map).collect() };
                        self.emit(g)?;
                    }
                    Ok(fwd.into_iter().take(out.len()).map(|v| v.map_q(&mut |q| back.get(&q).copied().unwrap_or(q))).collect())
                }
            }
        })();
        self.depth -= 1;
        r
    }
    fn fn_outputs(&self, f: &FnVal) -> R<usize> {
        let k = match self.h.get_optype(f.node) {
            OpType::FuncDefn(d) => d.signature().body().output_count(),
            OpType::FuncDecl(d) => d.signature().body().output_count(),
            _ => return bad("not a function"),
        };
        Ok(k + f.mods.iter().filter(|m| matches!(m, Mod::Ctrl(_))).count())
    }

    /// Something outside the program: a fixed unitary on the qubits, fixed functions on the classical values, an event.
    fn external(&mut self, name: &str, outs: &[Type], args: Vec<Val>) -> R<Vec<Val>> {
        let mut qubits = vec![];
        args.iter().for_each(|a| a.qubits(&mut qubits));
        let cls: Vec<String> = args.iter().map(|a| render(a, &mut vec![], None)).collect();
        let hsh = crate::run::hash(&(name, &cls));
        for (i, q) in qubits.iter().enumerate() {
            let a = (hsh % 1000) as f64 / 1000.0 * 3.0 + 0.3 * i as f64 + 0.1;
            self.gate(qs::ry(a).mul(&qs::rz(a * 1.7 + 0.2)), &[*q])?;
            if i > 0 {
                self.gate(qs::zz(a * 0.8 + 0.4), &[qubits[i - 1], *q])?;
            }
        }
        if self.rec.is_empty() && !name.starts_with("pure:") {
            self.events.push((name.into(), cls.join(",")));
        }
        let mut qi = qubits.into_iter();
        let r: R<Vec<Val>> = outs.iter().enumerate().map(|(i, t)| self.value_for(t, &mut |_m| qi.next(), hsh.wrapping_add(i as u64))).collect();
        r
    }
    /// Some value of type t determined by `seed`, with qubits supplied by `q` (or allocated).
    fn value_for(&mut self, t: &Type, q: &mut dyn FnMut(&mut Self) -> Option<usize>, seed: u64) -> R<Val> {
        let mut r = crate::gen::Rng::new(seed ^ 0xabcdef);
        let mut stack_err = None;
        let v = make_val(t, &mut r, &mut || match q(self) {
            Some(q) => q,
            None => match self.alloc() {
                Ok(q) => q,
                Err(e) => {
                    stack_err = Some(e);
                    0
                }
            },
        })?;
        match stack_err {
            Some(e) => Err(e),
            None => Ok(v),
        }
    }

    fn constant(&self, v: &Value) -> R<Val> {
        use hugr::extension::prelude::{ConstError, ConstString, ConstUsize};
        use hugr::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
        use hugr::std_extensions::collections::{array::ArrayValue, borrow_array::BArrayValue, list::ListValue, static_array::StaticArrayValue, value_array::VArrayValue};
        Ok(match v {
            Value::Sum(CSum { tag, values, .. }) => Val::Sum(*tag, values.iter().map(|v| self.constant(v)).collect::<R<_>>()?),
            Value::Function { .. } => return unsup("function constant"),
            Value::Extension { e } => {
                let c = e.value();
                if let Some(i) = c.downcast_ref::<ConstInt>() {
                    Val::Int(i.log_width(), i.value_u())
                } else if let Some(f) = c.downcast_ref::<ConstF64>() {
                    Val::F(f.value())
                } else if let Some(f) = c.downcast_ref::<tket::extension::rotation::ConstRotation>() {
                    Val::Rot(f.half_turns())
                } else if let Some(b) = c.downcast_ref::<tket::extension::bool::ConstBool>() {
                    Val::B(b.value())
                } else if let Some(u) = c.downcast_ref::<ConstUsize>() {
                    Val::Usize(u.value())
                } else if let Some(s) = c.downcast_ref::<ConstString>() {
                    Val::Str(s.value().into())
                } else if let Some(e) = c.downcast_ref::<ConstError>() {
                    Val::Err(e.signal, e.message.clone())
                } else if let Some(a) = c.downcast_ref::<ArrayValue>() {
                    Val::Arr(a.get_contents().iter().map(|v| self.constant(v).map(Some)).collect::<R<_>>()?)
                } else if let Some(a) = c.downcast_ref::<VArrayValue>() {
                    Val::Arr(a.get_contents().iter().map(|v| self.constant(v).map(Some)).collect::<R<_>>()?)
                } else if let Some(a) = c.downcast_ref::<BArrayValue>() {
                    Val::Arr(a.get_contents().iter().map(|v| self.constant(v).map(Some)).collect::<R<_>>()?)
                } else if let Some(a) = c.downcast_ref::<StaticArrayValue>() {
                    Val::Arr(a.get_contents().iter().map(|v| self.constant(v).map(Some)).collect::<R<_>>()?)
                } else if let Some(a) = c.downcast_ref::<ListValue>() {
                    Val::List(a.get_contents().iter().map(|v| self.constant(v)).collect::<R<_>>()?)
                } else {
                    return unsup(format!("constant {v:?}"));
                }
            }
        })
    }

    fn ext_op(&mut self, node: Node, ext: &str, name: &str, targs: &[TypeArg], ins: Vec<Val>, e: &hugr::ops::ExtensionOp) -> R<Vec<Val>> {
        let q = |i: usize| -> R<usize> {
            match ins.get(i) {
                Some(Val::Q(q)) => Ok(*q),
                v => bad(format!("{name}: not a qubit: {v:?}")),
            }
        };
        let fl = |i: usize| -> R<f64> {
            match ins.get(i) {
                Some(Val::F(x)) if self.o.max_angle > 0.0 && x.abs() > self.o.max_angle => unsup("huge angle"),
                Some(Val::F(x)) => Ok(*x),
                v => bad(format!("{name}: not a float: {v:?}")),
            }
        };
        let rot = |i: usize| -> R<f64> {
            match ins.get(i) {
                Some(Val::Rot(x)) if self.o.max_angle > 0.0 && x.abs() > self.o.max_angle => unsup("huge angle"),
                Some(Val::Rot(x)) => Ok(*x * std::f64::consts::PI),
                v => bad(format!("{name}: not a rotation: {v:?}")),
            }
        };
        let boo = |i: usize| -> R<bool> {
            match ins.get(i) {
                Some(v) => v.as_bool(),
                None => bad("missing input"),
            }
        };
        let us = |i: usize| -> R<u64> {
            match ins.get(i) {
                Some(Val::Usize(x)) => Ok(*x),
                v => bad(format!("{name}: not a usize: {v:?}")),
            }
        };
        let nat = |i: usize| -> R<u64> {
            match targs.get(i) {
                Some(Term::BoundedNat(n)) => Ok(*n),
                t => unsup(format!("{name}: nat arg {t:?}")),
            }
        };
        let strg = |i: usize| -> R<String> {
            match targs.get(i) {
                Some(Term::String(s)) => Ok(s.clone()),
                t => unsup(format!("{name}: string arg {t:?}")),
            }
        };
        let out_types = || -> Vec<Type> { e.signature().output().iter().cloned().collect() };
        match ext {
            "tket.quantum" => {
                match name {
                    "H" => self.gate(qs::h(), &[q(0)?])?,
                    "X" => self.gate(qs::x(), &[q(0)?])?,
                    "Y" => self.gate(qs::y(), &[q(0)?])?,
                    "Z" => self.gate(qs::z(), &[q(0)?])?,
                    "S" => self.gate(qs::u1(std::f64::consts::FRAC_PI_2), &[q(0)?])?,
                    "Sdg" => self.gate(qs::u1(-std::f64::consts::FRAC_PI_2), &[q(0)?])?,
                    "T" => self.gate(qs::u1(std::f64::consts::FRAC_PI_4), &[q(0)?])?,
                    "Tdg" => self.gate(qs::u1(-std::f64::consts::FRAC_PI_4), &[q(0)?])?,
                    "V" => self.gate(qs::sx(std::f64::consts::FRAC_PI_2), &[q(0)?])?,
                    "Vdg" => self.gate(qs::sx(-std::f64::consts::FRAC_PI_2), &[q(0)?])?,
                    "Rx" => self.gate(qs::rx(rot(1)?), &[q(0)?])?,
                    "Ry" => self.gate(qs::ry(rot(1)?), &[q(0)?])?,
                    "Rz" => self.gate(qs::rz(rot(1)?), &[q(0)?])?,
                    "CX" => self.gate(qs::x().controlled(), &[q(0)?, q(1)?])?,
                    "CY" => self.gate(qs::y().controlled(), &[q(0)?, q(1)?])?,
                    "CZ" => self.gate(qs::z().controlled(), &[q(0)?, q(1)?])?,
                    "CRz" => self.gate(qs::rz(rot(2)?).controlled(), &[q(0)?, q(1)?])?,
                    "Toffoli" => self.gate(qs::x().controlled().controlled(), &[q(0)?, q(1)?, q(2)?])?,
                    "Measure" => {
                        let b = self.measure(q(0)?, false)?;
                        return Ok(vec![Val::Q(q(0)?), bool_v(b)]);
                    }
                    "MeasureFree" => {
                        let b = self.measure(q(0)?, true)?;
                        return Ok(vec![Val::B(b)]);
                    }
                    "QAlloc" => return Ok(vec![Val::Q(self.alloc()?)]),
                    "TryQAlloc" => return Ok(vec![Val::Sum(1, vec![Val::Q(self.alloc()?)])]),
                    "QFree" => {
                        self.measure(q(0)?, true)?;
                        return Ok(vec![]);
                    }
                    "Reset" => self.reset(q(0)?)?,
                    "symbolic_angle" => {
                        let s = strg(0)?;
                        return match crate::expr::eval_str(&s, &self.o.symbols) {
                            Some(v) => Ok(vec![Val::Rot(v)]),
                            None => unsup(format!("symbolic expression {s}")),
                        };
                    }
                    _ => return unsup(format!("{ext}.{name}")),
                }
                let k = e.signature().output_count();
                Ok(ins.into_iter().take(k).collect())
            }
            "tket.qsystem" => match name {
                "Rz" => {
                    self.gate(qs::rz(fl(1)?), &[q(0)?])?;
                    Ok(vec![Val::Q(q(0)?)])
                }
                "PhasedX" => {
                    self.gate(qs::phasedx(fl(1)?, fl(2)?), &[q(0)?])?;
                    Ok(vec![Val::Q(q(0)?)])
                }
                "ZZPhase" => {
                    self.gate(qs::zz(fl(2)?), &[q(0)?, q(1)?])?;
                    Ok(vec![Val::Q(q(0)?), Val::Q(q(1)?)])
                }
                "Measure" => Ok(vec![Val::B(self.measure(q(0)?, true)?)]),
                "MeasureReset" => {
                    let b = self.measure(q(0)?, false)?;
                    if b {
                        self.gate(qs::x(), &[q(0)?])?;
                    }
                    Ok(vec![Val::Q(q(0)?), Val::B(b)])
                }
                "LazyMeasure" => Ok(vec![Val::Future(Box::new(bool_v(self.measure(q(0)?, true)?)))]),
                "LazyMeasureReset" => {
                    let b = self.measure(q(0)?, false)?;
                    if b {
                        self.gate(qs::x(), &[q(0)?])?;
                    }
                    Ok(vec![Val::Q(q(0)?), Val::Future(Box::new(bool_v(b)))])
                }
                "LazyMeasureLeaked" => {
                    let b = self.measure(q(0)?, true)?;
                    Ok(vec![Val::Future(Box::new(Val::Int(6, b as u64)))])
                }
                "Reset" => {
                    self.reset(q(0)?)?;
                    Ok(vec![Val::Q(q(0)?)])
                }
                "TryQAlloc" => Ok(vec![Val::Sum(1, vec![Val::Q(self.alloc()?)])]),
                "QFree" => {
                    self.measure(q(0)?, true)?;
                    Ok(vec![])
                }
                "RuntimeBarrier" => {
                    if self.o.barriers == 2 {
                        let mut v = vec![];
                        ins[0].qubits(&mut v);
                        self.barrier_event(v);
                    }
                    Ok(ins)
                }
                _ => unsup(format!("{ext}.{name}")),
            },
            "tket.global_phase" => {
                self.gate(qs::phase(rot(0)?), &[])?;
                Ok(vec![])
            }
            "tket.bool" => Ok(vec![match name {
                "read" => bool_v(boo(0)?),
                "make_opaque" => Val::B(boo(0)?),
                "eq" => Val::B(boo(0)? == boo(1)?),
                "not" => Val::B(!boo(0)?),
                "and" => Val::B(boo(0)? & boo(1)?),
                "or" => Val::B(boo(0)? | boo(1)?),
                "xor" => Val::B(boo(0)? ^ boo(1)?),
                _ => return unsup(format!("{ext}.{name}")),
            }]),
            "tket.rotation" => match name {
                "from_halfturns" => {
                    let x = fl(0)?;
                    Ok(vec![if x.is_finite() { Val::Sum(1, vec![Val::Rot(x)]) } else { Val::Sum(0, vec![]) }])
                }
                "from_halfturns_unchecked" => {
                    let x = fl(0)?;
                    if !x.is_finite() {
                        return Err(Halt::Panic("non-finite rotation".into()));
                    }
                    Ok(vec![Val::Rot(x)])
                }
                "to_halfturns" => match &ins[0] {
                    Val::Rot(x) => Ok(vec![Val::F(*x)]),
                    _ => bad("not a rotation"),
                },
                "radd" => match (&ins[0], &ins[1]) {
                    (Val::Rot(x), Val::Rot(y)) => Ok(vec![Val::Rot(x + y)]),
                    _ => bad("not a rotation"),
                },
                _ => unsup(format!("{ext}.{name}")),
            },
            "tket.futures" => match (name, &ins[0]) {
                ("Read", Val::Future(v)) => Ok(vec![(**v).clone()]),
                ("Dup", v @ Val::Future(_)) => Ok(vec![v.clone(), v.clone()]),
                ("Free", Val::Future(_)) => Ok(vec![]),
                _ => bad(format!("{name} of {:?}", ins[0])),
            },
            "tket.debug" if name == "StateResult" => {
                let mut v = vec![];
                ins[0].qubits(&mut v);
                self.events.push((format!("state:{}", strg(0)?), format!("{}", v.len())));
                Ok(ins)
            }
            "tket.guppy" if name == "drop" => {
                let mut v = vec![];
                ins[0].qubits(&mut v);
                if !v.is_empty() {
                    return unsup("drop of qubits");
                }
                Ok(vec![])
            }
            "tket.result" => {
                let tag = strg(0)?;
                let signed = name.contains("int") && !name.contains("uint");
                let v = match name {
                    "result_bool" | "result_array_bool" => render_bools(&ins[0])?,
                    _ => render_num(&ins[0], signed),
                };
                self.events.push((format!("{name}:{tag}"), v));
                Ok(vec![])
            }
            "tket.qsystem.random" => match name {
                "NewRNGContext" => {
                    let Val::Int(_, s) = ins[0] else { return bad("seed") };
                    if self.rng_used {
                        return Ok(vec![Val::Sum(0, vec![])]);
                    }
                    self.rng_used = true;
                    Ok(vec![Val::Sum(1, vec![Val::Rng(s, 0)])])
                }
                "DeleteRNGContext" => {
                    self.rng_used = false;
                    Ok(vec![])
                }
                _ => {
                    let Val::Rng(s, c) = ins[0] else { return bad("rng") };
                    let x = rnd(s, c);
                    match name {
                        "RandomInt" => Ok(vec![Val::Int(5, x), Val::Rng(s, c.wrapping_add(1))]),
                        "RandomFloat" => Ok(vec![Val::F(x as f64 / (1u64 << 32) as f64), Val::Rng(s, c.wrapping_add(1))]),
                        "RandomIntBounded" => {
                            let Val::Int(_, b) = ins[1] else { return bad("bound") };
                            Ok(vec![Val::Int(5, if b == 0 { 0 } else { x % b }), Val::Rng(s, c.wrapping_add(1))])
                        }
                        "RandomAdvance" => {
                            let Val::Int(_, d) = ins[1] else { return bad("delta") };
                            Ok(vec![Val::Rng(s, c.wrapping_add(d))])
                        }
                        _ => unsup(format!("{ext}.{name}")),
                    }
                }
            },
            "tket.qsystem.utils" if name == "GetCurrentShot" => Ok(vec![Val::Int(6, 42)]),
            "tket.modifier" => {
                let Some(Val::Fn(f)) = ins.first() else { return bad("modifier of a non-function") };
                let mut f = f.clone();
                match name {
                    "ControlModifier" => f.mods.push(Mod::Ctrl(nat(0)? as usize)),
                    "DaggerModifier" => f.mods.push(Mod::Dagger),
                    "PowerModifier" => {
                        let Val::Int(_, k) = ins[1] else { return bad("power") };
                        f.mods.push(Mod::Power(k));
                    }
                    _ => return unsup(name),
                }
                Ok(vec![Val::Fn(f)])
            }
            "verif.test" => {
                let outs = out_types();
                self.external(&format!("pure:{name}{targs:?}"), &outs, ins)
            }
            "tket.wasm" | "tket.gpu" => {
                let outs = out_types();
                self.external(&format!("{ext}.{name}{targs:?}"), &outs, ins)
            }
            "TKET1" => crate::pytket::exec_opaque(self, node, e, ins),
            "prelude" => match name {
                "MakeTuple" => Ok(vec![Val::Sum(0, ins)]),
                "UnpackTuple" => match ins.into_iter().next() {
                    Some(Val::Sum(0, v)) => Ok(v),
                    _ => bad("unpack of a non-tuple"),
                },
                "Noop" | "Barrier" => {
                    if name == "Barrier" && self.o.barriers == 1 {
                        let mut v = vec![];
                        for (x, t) in ins.iter().zip(e.signature().input().iter()) {
                            if !barrier_qubits(x, t, &mut v) {
                                return unsup("barrier over an array with missing qubits");
                            }
                        }
                        self.barrier_event(v);
                    }
                    Ok(ins)
                }
                "load_nat" => Ok(vec![Val::Usize(nat(0)?)]),
                "panic" | "exit" => {
                    let m = match &ins[0] {
                        Val::Err(s, m) => format!("{name} {s} {m}"),
                        v => format!("{name} {v:?}"),
                    };
                    Err(Halt::Panic(m))
                }
                "MakeError" => match (&ins[0], &ins[1]) {
                    (Val::Usize(s), Val::Str(m)) => Ok(vec![Val::Err(*s as u32, m.clone())]),
                    _ => bad("MakeError"),
                },
                "print" => {
                    let Val::Str(s) = &ins[0] else { return bad("print") };
                    self.events.push(("print".into(), s.clone()));
                    Ok(vec![])
                }
                _ => unsup(format!("{ext}.{name}")),
            },
            "logic" => {
                let b = match name {
                    "And" => boo(0)? & boo(1)?,
                    "Or" => boo(0)? | boo(1)?,
                    "Eq" => boo(0)? == boo(1)?,
                    "Not" => !boo(0)?,
                    "Xor" => boo(0)? ^ boo(1)?,
                    _ => return unsup(format!("{ext}.{name}")),
                };
                Ok(vec![bool_v(b)])
            }
            "arithmetic.float" => {
                let x = fl(0)?;
                let v = match name {
                    "fneg" => Val::F(-x),
                    "fabs" => Val::F(x.abs()),
                    "ffloor" => Val::F(x.floor()),
                    "fceil" => Val::F(x.ceil()),
                    "fround" => Val::F(x.round_ties_even()),
                    "ftostring" => Val::Str(format!("{x}")),
                    _ => {
                        let y = fl(1)?;
                        match name {
                            "fadd" => Val::F(x + y),
                            "fsub" => Val::F(x - y),
                            "fmul" => Val::F(x * y),
                            "fdiv" => Val::F(x / y),
                            "fpow" => Val::F(x.powf(y)),
                            "fmax" => Val::F(x.max(y)),
                            "fmin" => Val::F(x.min(y)),
                            "feq" => bool_v(x == y),
                            "fne" => bool_v(x != y),
                            "flt" => bool_v(x < y),
                            "fgt" => bool_v(x > y),
                            "fle" => bool_v(x <= y),
                            "fge" => bool_v(x >= y),
                            _ => return unsup(format!("{ext}.{name}")),
                        }
                    }
                };
                Ok(vec![v])
            }
            "arithmetic.int" => int_op(name, targs, &ins),
            "arithmetic.conversions" => {
                let iv = |i: usize| -> R<(u8, u64)> {
                    match ins.get(i) {
                        Some(Val::Int(w, v)) => Ok((*w, *v)),
                        v => bad(format!("{name}: not an int: {v:?}")),
                    }
                };
                Ok(vec![match name {
                    "convert_u" => Val::F(iv(0)?.1 as f64),
                    "convert_s" => Val::F(signed(iv(0)?) as f64),
                    "trunc_u" | "trunc_s" => {
                        let w = nat(0)? as u8;
                        let x = fl(0)?.trunc();
                        let bits = 1u32 << w;
                        let (lo, hi) = if name == "trunc_u" { (0.0, 2f64.powi(bits as i32)) } else { (-(2f64.powi(bits as i32 - 1)), 2f64.powi(bits as i32 - 1)) };
                        if x.is_finite() && x >= lo && x < hi {
                            Val::Sum(1, vec![Val::Int(w, (x as i128 as u64) & mask(w))])
                        } else {
                            Val::Sum(0, vec![Val::Err(0, "trunc".into())])
                        }
                    }
                    "itobool" => bool_v(iv(0)?.1 != 0),
                    "ifrombool" => Val::Int(0, boo(0)? as u64),
                    "itousize" => Val::Usize(iv(0)?.1),
                    "ifromusize" => Val::Int(6, us(0)?),
                    "itostring_u" => Val::Str(format!("{}", iv(0)?.1)),
                    "itostring_s" => Val::Str(format!("{}", signed(iv(0)?))),
                    _ => return unsup(format!("{ext}.{name}")),
                }])
            }
            "collections.static_array" => {
                let Val::Arr(a) = &ins[0] else { return bad("static array") };
                match name {
                    "get" => Ok(vec![match a.get(us(1)? as usize) {
                        Some(Some(v)) => Val::Sum(1, vec![v.clone()]),
                        _ => Val::Sum(0, vec![]),
                    }]),
                    "len" => Ok(vec![Val::Usize(a.len() as u64)]),
                    _ => unsup(format!("{ext}.{name}")),
                }
            }
            "collections.array" | "collections.value_array" | "collections.borrow_arr" => self.array_op(name, targs, ins),
            "collections.list" => {
                let Val::List(l) = &ins[0] else { return bad("list") };
                let mut l = l.clone();
                match name {
                    "push" => {
                        l.push(ins[1].clone());
                        Ok(vec![Val::List(l)])
                    }
                    "pop" => {
                        let v = l.pop();
                        Ok(vec![
                            Val::List(l),
                            match v {
                                Some(v) => Val::Sum(1, vec![v]),
                                None => Val::Sum(0, vec![]),
                            },
                        ])
                    }
                    "get" => Ok(vec![match l.get(us(1)? as usize) {
                        Some(v) => Val::Sum(1, vec![v.clone()]),
                        None => Val::Sum(0, vec![]),
                    }]),
                    "length" => {
                        let n = l.len() as u64;
                        Ok(vec![Val::List(l), Val::Usize(n)])
                    }
                    _ => unsup(format!("{ext}.{name}")),
                }
            }
            _ => {
                if name == "symbolic_angle" || ext.contains("sympy") || name.contains("sympy") || name.contains("Sympy") {
                    let s = strg(0)?;
                    let v = crate::expr::eval_str(&s, &self.o.symbols);
                    return match v {
                        Some(v) => Ok(vec![Val::Rot(v)]),
                        None => unsup(format!("symbolic expression {s}")),
                    };
                }
                unsup(format!("{ext}.{name}"))
            }
        }
    }

    fn array_op(&mut self, name: &str, targs: &[TypeArg], ins: Vec<Val>) -> R<Vec<Val>> {
        let nat = |i: usize| -> R<u64> {
            match targs.get(i) {
                Some(Term::BoundedNat(n)) => Ok(*n),
                t => unsup(format!("{name}: nat arg {t:?}")),
            }
        };
        if name == "new_array" {
            return Ok(vec![Val::Arr(ins.into_iter().map(Some).collect())]);
        }
        if name == "new_all_borrowed" {
            return Ok(vec![Val::Arr(vec![None; nat(0)? as usize])]);
        }
        if name == "repeat" {
            let Some(Val::Fn(f)) = ins.first() else { return bad("repeat") };
            let mut v = vec![];
            for _ in 0..nat(0)? {
                let mut r = self.call(f, vec![])?;
                if r.len() != 1 {
                    return bad("repeat");
                }
                v.push(r.pop());
            }
            return Ok(vec![Val::Arr(v)]);
        }
        let Some(Val::Arr(a)) = ins.first() else { return bad(format!("{name}: not an array: {:?}", ins.first())) };
        let mut a = a.clone();
        let us = |i: usize| -> R<usize> {
            match ins.get(i) {
                Some(Val::Usize(x)) => Ok((*x).min(1 << 40) as usize),
                v => bad(format!("{name}: not a usize: {v:?}")),
            }
        };
        let full = |v: &Option<Val>| -> R<Val> { v.clone().ok_or_else(|| Halt::Panic("element is borrowed".into())) };
        match name {
            "unpack" => a.iter().map(full).collect(),
            "get" => match a.get(us(1)?) {
                Some(v) => {
                    let v = full(v)?;
                    Ok(vec![Val::Sum(1, vec![v]), Val::Arr(a)])
                }
                None => Ok(vec![Val::Sum(0, vec![]), Val::Arr(a)]),
            },
            "set" => {
                let i = us(1)?;
                if i < a.len() {
                    let old = full(&a[i])?;
                    a[i] = Some(ins[2].clone());
                    Ok(vec![Val::Sum(1, vec![old, Val::Arr(a)])])
                } else {
                    Ok(vec![Val::Sum(0, vec![ins[2].clone(), Val::Arr(a)])])
                }
            }
            "swap" => {
                let (i, j) = (us(1)?, us(2)?);
                if i < a.len() && j < a.len() {
                    a.swap(i, j);
                    Ok(vec![Val::Sum(1, vec![Val::Arr(a)])])
                } else {
                    Ok(vec![Val::Sum(0, vec![Val::Arr(a)])])
                }
            }
            "pop_left" | "pop_right" => {
                if a.is_empty() {
                    return Ok(vec![Val::Sum(0, vec![])]);
                }
                let v = if name == "pop_left" { a.remove(0) } else { a.pop().unwrap() };
                let v = full(&v)?;
                Ok(vec![Val::Sum(1, vec![v, Val::Arr(a)])])
            }
            "discard_empty" | "discard" => Ok(vec![]),
            "clone" => Ok(vec![Val::Arr(a.clone()), Val::Arr(a)]),
            "scan" => {
                let Some(Val::Fn(f)) = ins.get(1).cloned() else { return bad("scan") };
                let mut acc: Vec<Val> = ins[2..].to_vec();
                let mut out = vec![];
                for v in &a {
                    let mut args = vec![full(v)?];
                    args.extend(acc);
                    let mut r = self.call(&f, args)?;
                    acc = r.split_off(1);
                    out.push(r.pop());
                }
                let mut r = vec![Val::Arr(out)];
                r.extend(acc);
                Ok(r)
            }
            "borrow" => {
                let i = us(1)?;
                if i >= a.len() {
                    return Err(Halt::Panic("index out of bounds".into()));
                }
                let v = a[i].take().ok_or_else(|| Halt::Panic("element is borrowed".into()))?;
                Ok(vec![Val::Arr(a), v])
            }
            "return" => {
                let i = us(1)?;
                if i >= a.len() {
                    return Err(Halt::Panic("index out of bounds".into()));
                }
                if a[i].is_some() {
                    return Err(Halt::Panic("element is not borrowed".into()));
                }
                a[i] = Some(ins[2].clone());
                Ok(vec![Val::Arr(a)])
            }
            "discard_all_borrowed" => {
                if a.iter().any(|x| x.is_some()) {
                    return Err(Halt::Panic("not all elements are borrowed".into()));
                }
                Ok(vec![])
            }
            "is_borrowed" => {
                let i = us(1)?;
                if i >= a.len() {
                    return Err(Halt::Panic("index out of bounds".into()));
                }
                let b = a[i].is_none();
                Ok(vec![Val::Arr(a), bool_v(b)])
            }
            n if n.starts_with("to_") || n.starts_with("from_") => {
                if a.iter().any(|x| x.is_none()) {
                    return Err(Halt::Panic("element is borrowed".into()));
                }
                Ok(vec![Val::Arr(a)])
            }
            _ => unsup(format!("array op {name}")),
        }
    }
    pub fn gate_on(&mut self, m: Mat, q: &[usize]) -> R<()> {
        self.gate(m, q)
    }
    pub fn measure_q(&mut self, q: usize) -> R<bool> {
        self.measure(q, false)
    }
    pub fn reset_q(&mut self, q: usize) -> R<()> {
        self.reset(q)
    }
    pub fn free_q(&mut self, q: usize) -> R<()> {
        self.measure(q, true).map(|_| ())
    }
    pub fn alloc_q(&mut self) -> R<usize> {
        self.alloc()
    }
    pub fn opts(&self) -> &SimOpts {
        self.o
    }
    pub fn hugr(&self) -> &Hugr {
        self.h
    }
}

/// The qubits a barrier synchronises: those reached through arrays, tuples and arrays of options.
/// False if an array has holes: barriers assume that arrays are full.
fn barrier_qubits(v: &Val, t: &Type, out: &mut Vec<usize>) -> bool {
    use crate::hb::*;
    if is_q(t) {
        v.qubits(out);
        return true;
    }
    if let (Some((_, _, el)), Val::Arr(a)) = (arr_of(t), v) {
        let opt = el == t_opt(vec![t_q()]);
        return a.iter().all(|x| match x {
            Some(Val::Sum(0, _)) if opt => false,
            Some(x) if opt => {
                x.qubits(out);
                true
            }
            Some(x) => barrier_qubits(x, &el, out),
            None => false,
        });
    }
    if let (Some(ts), Val::Sum(0, vs)) = (tuple_of(t), v) {
        return vs.iter().zip(&ts).all(|(x, t)| barrier_qubits(x, t, out));
    }
    true
}
fn lazy_input(v: Val, k: u8) -> Val {
    match v {
        Val::B(b) if k == 1 => Val::Sum(0, vec![bool_v(b)]),
        Val::B(b) => Val::Sum(1, vec![Val::Future(Box::new(bool_v(b)))]),
        Val::Sum(t, v) => Val::Sum(t, v.into_iter().map(|x| lazy_input(x, k)).collect()),
        Val::Arr(v) => Val::Arr(v.into_iter().map(|x| x.map(|x| lazy_input(x, k))).collect()),
        v => v,
    }
}
fn mask(w: u8) -> u64 {
    if w >= 6 {
        u64::MAX
    } else {
        (1u64 << (1u32 << w)) - 1
    }
}
fn signed((w, v): (u8, u64)) -> i64 {
    let bits = 1u32 << w;
    if bits >= 64 {
        v as i64
    } else if v >> (bits - 1) & 1 == 1 {
        v as i64 - (1i64 << bits)
    } else {
        v as i64
    }
}
fn int_op(name: &str, targs: &[TypeArg], ins: &[Val]) -> R<Vec<Val>> {
    let Some(Val::Int(w, a)) = ins.first().cloned() else { return bad(format!("{name}: {:?}", ins.first())) };
    let b = match ins.get(1) {
        Some(Val::Int(_, b)) => *b,
        _ => 0,
    };
    let m = mask(w);
    let (sa, sb) = (signed((w, a)), signed((w, b)));
    let bits = 1u32 << w;
    let int = |x: u64| Val::Int(w, x & m);
    let nat = |i: usize| -> R<u8> {
        match targs.get(i) {
            Some(Term::BoundedNat(n)) => Ok(*n as u8),
            t => unsup(format!("{name}: {t:?}")),
        }
    };
    let err = || Val::Sum(0, vec![Val::Err(0, name.into())]);
    let ok = |v: Val| Val::Sum(1, vec![v]);
    let div0 = || Err(Halt::Panic("division by zero".into()));
    Ok(vec![match name {
        "iwiden_u" => Val::Int(nat(1)?, a),
        "iwiden_s" => {
            let w2 = nat(1)?;
            Val::Int(w2, sa as u64 & mask(w2))
        }
        "inarrow_u" => {
            let w2 = nat(1)?;
            if a <= mask(w2) {
                ok(Val::Int(w2, a))
            } else {
                err()
            }
        }
        "inarrow_s" => {
            let w2 = nat(1)?;
            let v = sa as u64 & mask(w2);
            if signed((w2, v)) == sa {
                ok(Val::Int(w2, v))
            } else {
                err()
            }
        }
        "ieq" => bool_v(a == b),
        "ine" => bool_v(a != b),
        "ilt_u" => bool_v(a < b),
        "ilt_s" => bool_v(sa < sb),
        "igt_u" => bool_v(a > b),
        "igt_s" => bool_v(sa > sb),
        "ile_u" => bool_v(a <= b),
        "ile_s" => bool_v(sa <= sb),
        "ige_u" => bool_v(a >= b),
        "ige_s" => bool_v(sa >= sb),
        "imax_u" => int(a.max(b)),
        "imin_u" => int(a.min(b)),
        "imax_s" => int(sa.max(sb) as u64),
        "imin_s" => int(sa.min(sb) as u64),
        "iadd" => int(a.wrapping_add(b)),
        "isub" => int(a.wrapping_sub(b)),
        "ineg" => int(a.wrapping_neg()),
        "imul" => int(a.wrapping_mul(b)),
        "iabs" | "is_to_u" => int(sa.unsigned_abs()),
        "iu_to_s" => int(a),
        "iand" => int(a & b),
        "ior" => int(a | b),
        "ixor" => int(a ^ b),
        "inot" => int(!a),
        "ishl" => int(if b >= bits as u64 { 0 } else { a << b }),
        "ishr" => int(if b >= bits as u64 { 0 } else { a >> b }),
        "ipow" => {
            let mut r = 1u64;
            let mut base = a;
            let mut e = b;
            while e > 0 {
                if e & 1 == 1 {
                    r = r.wrapping_mul(base);
                }
                base = base.wrapping_mul(base);
                e >>= 1;
            }
            int(r)
        }
        "idivmod_u" | "idiv_u" | "imod_u" => {
            if b == 0 {
                return div0();
            }
            match name {
                "idiv_u" => int(a / b),
                "imod_u" => int(a % b),
                _ => return Ok(vec![int(a / b), int(a % b)]),
            }
        }
        "idivmod_checked_u" | "idiv_checked_u" | "imod_checked_u" => {
            if b == 0 {
                err()
            } else {
                ok(match name {
                    "idiv_checked_u" => int(a / b),
                    "imod_checked_u" => int(a % b),
                    _ => Val::Sum(0, vec![int(a / b), int(a % b)]),
                })
            }
        }
        "idivmod_s" | "idiv_s" | "imod_s" | "idivmod_checked_s" | "idiv_checked_s" | "imod_checked_s" => {
            let checked = name.contains("checked");
            if b == 0 {
                return if checked { Ok(vec![err()]) } else { div0() };
            }
            // signed n, unsigned m
            let (n, d) = (sa as i128, b as i128);
            let (qv, r) = (n.div_euclid(d), n.rem_euclid(d));
            let (qv, r) = (int(qv as u64), int(r as u64));
            match (checked, name.contains("divmod"), name.contains("div")) {
                (false, true, _) => return Ok(vec![qv, r]),
                (false, false, true) => qv,
                (false, false, false) => r,
                (true, true, _) => ok(Val::Sum(0, vec![qv, r])),
                (true, false, true) => ok(qv),
                (true, false, false) => ok(r),
            }
        }
        "irotl" | "irotr" => {
            let k = (b % bits as u64) as u32;
            let k = if name == "irotl" { k } else { (bits - k) % bits };
            if k == 0 {
                int(a)
            } else {
                int((a << k) | (a >> (bits - k)))
            }
        }
        _ => return unsup(format!("int op {name}")),
    }])
}

pub fn subst(t: &TypeArg, targs: &[TypeArg]) -> TypeArg {
    if targs.is_empty() {
        return t.clone();
    }
    match t {
        Term::Variable(v) => targs.get(v.index()).cloned().unwrap_or_else(|| t.clone()),
        Term::List(l) => Term::List(l.iter().map(|x| subst(x, targs)).collect()),
        Term::Tuple(l) => Term::Tuple(l.iter().map(|x| subst(x, targs)).collect()),
        _ => t.clone(),
    }
}

/// A value of type `t`; classical parts from `r`, qubits from `q`.
pub fn make_val(t: &Type, r: &mut crate::gen::Rng, q: &mut dyn FnMut() -> usize) -> R<Val> {
    use hugr::types::TypeEnum;
    Ok(match t.as_type_enum() {
        TypeEnum::Sum(s) => {
            let n = s.num_variants();
            if n == 0 {
                return unsup("value of an empty sum");
            }
            let tag = (r.next() >> 20) as usize % n;
            let row = s.get_variant(tag).unwrap().clone();
            let row: hugr::types::TypeRow = row.try_into().map_err(|_| Halt::Unsupported("row variable".into()))?;
            Val::Sum(tag, row.iter().map(|t| make_val(t, r, q)).collect::<R<_>>()?)
        }
        TypeEnum::Extension(c) => {
            let name = c.name().to_string();
            let nat = |i: usize| match c.args().get(i) {
                Some(Term::BoundedNat(n)) => Ok(*n),
                _ => unsup(format!("value of {t}")),
            };
            match (c.extension().to_string().as_str(), name.as_str()) {
                ("prelude", "qubit") => Val::Q(q()),
                ("prelude", "usize") => Val::Usize((r.next() >> 20) % 4),
                ("prelude", "string") => Val::Str(format!("s{}", (r.next() >> 20) % 10)),
                ("prelude", "error") => Val::Err(((r.next() >> 20) % 100) as u32, "err".into()),
                ("tket.bool", "bool") => Val::B((r.next() >> 20) & 1 == 1),
                ("tket.rotation", "rotation") => Val::Rot((r.next() >> 11) as f64 / (1u64 << 53) as f64 * 3.0 - 1.1),
                ("arithmetic.float.types", _) => Val::F((r.next() >> 11) as f64 / (1u64 << 53) as f64 * 3.0 - 1.1),
                ("arithmetic.int.types", _) => {
                    let w = nat(0)? as u8;
                    Val::Int(w, (r.next() >> 7) % 5 & mask(w))
                }
                ("collections.array", _) | ("collections.borrow_arr", _) | ("collections.value_array", _) => {
                    let n = nat(0)?;
                    let Some(Term::Runtime(ty)) = c.args().get(1) else { return unsup("array") };
                    // arrays of optional qubits are full
                    if *ty == crate::hb::t_opt(vec![crate::hb::t_q()]) {
                        return Ok(Val::Arr((0..n).map(|_| Some(Val::Sum(1, vec![Val::Q(q())]))).collect()));
                    }
                    Val::Arr((0..n).map(|_| make_val(ty, r, q).map(Some)).collect::<R<_>>()?)
                }
                ("tket.futures", _) => {
                    let Some(Term::Runtime(ty)) = c.args().first() else { return unsup("future") };
                    Val::Future(Box::new(make_val(ty, r, q)?))
                }
                _ => Val::Opaque(format!("{t}#{}", r.next() % 1000), vec![]),
            }
        }
        _ => return unsup(format!("value of {t}")),
    })
}

/// The random numbers of the stand-in runtime (see qis/runner.c).
fn rnd(s: u64, c: u64) -> u64 {
    let mut x = s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(c.wrapping_mul(0xD1B54A32D192ED03)).wrapping_add(0x632BE59BD9B4E019);
    x ^= x >> 30;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94D049BB133111EB);
    x ^= x >> 31;
    x as u32 as u64
}
pub fn fnum(x: f64) -> String {
    if x == 0.0 {
        "0".into()
    } else if x.is_finite() {
        let s = format!("{:.6e}", x);
        if x.abs() < 1e-9 {
            "0".into()
        } else {
            s
        }
    } else {
        format!("{x}")
    }
}
fn render_bools(v: &Val) -> R<String> {
    Ok(match v {
        Val::Arr(a) => {
            let mut s = String::from("[");
            for x in a {
                s += match x {
                    Some(x) => {
                        if x.as_bool()? {
                            "1"
                        } else {
                            "0"
                        }
                    }
                    None => "_",
                };
            }
            s + "]"
        }
        v => format!("{}", v.as_bool()? as u8),
    })
}
fn render_num(v: &Val, sgn: bool) -> String {
    match v {
        Val::Int(w, x) => {
            if sgn {
                format!("{}", signed((*w, *x)))
            } else {
                format!("{x}")
            }
        }
        Val::F(x) => fnum(*x),
        Val::Arr(a) => format!("[{}]", a.iter().map(|x| x.as_ref().map(|x| render_num(x, sgn)).unwrap_or("_".into())).collect::<Vec<_>>().join(",")),
        v => format!("{v:?}"),
    }
}

/// Canonical text of a value. Qubits are replaced by their order of appearance (collected in `qs`). With the original
/// type `ty`, representations that lowering changes (booleans as sums or futures) are rendered alike.
pub fn render(v: &Val, qs: &mut Vec<usize>, ty: Option<&Type>) -> String {
    use hugr::types::TypeEnum;
    if let Some(t) = ty {
        match t.as_type_enum() {
            TypeEnum::Extension(c) => {
                let ext = c.extension().to_string();
                if ext == "tket.bool" {
                    return match v.as_bool() {
                        Ok(b) => format!("b{}", b as u8),
                        Err(_) => format!("?{v:?}"),
                    };
                }
                if ext.starts_with("collections") && c.args().len() == 2 {
                    if let (Val::Arr(a), Some(Term::Runtime(el))) = (v, c.args().get(1)) {
                        return format!("[{}]", a.iter().map(|x| x.as_ref().map(|x| render(x, qs, Some(el))).unwrap_or("_".into())).collect::<Vec<_>>().join(","));
                    }
                }
            }
            TypeEnum::Sum(s) => {
                if let Val::Sum(tag, vs) = v {
                    if let Some(row) = s.get_variant(*tag) {
                        if row.len() == vs.len() {
                            let parts: Vec<String> = vs
                                .iter()
                                .enumerate()
                                .map(|(i, x)| {
                                    let t: Option<Type> = row.get(i).and_then(|t| t.clone().try_into_type().ok());
                                    render(x, qs, t.as_ref())
                                })
                                .collect();
                            return format!("<{tag}:{}>", parts.join(","));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match v {
        Val::Q(q) => {
            qs.push(*q);
            format!("q{}", qs.len() - 1)
        }
        Val::Sum(t, v) => format!("<{t}:{}>", v.iter().map(|x| render(x, qs, None)).collect::<Vec<_>>().join(",")),
        Val::Int(w, x) => format!("i{w}:{x}"),
        Val::F(x) => format!("f{}", fnum(*x)),
        Val::Rot(x) => {
            // angles are compared as reals
            format!("r{}", fnum(*x))
        }
        Val::B(b) => format!("b{}", *b as u8),
        Val::Usize(x) => format!("u{x}"),
        Val::Str(s) => format!("{s:?}"),
        Val::Arr(a) => format!("[{}]", a.iter().map(|x| x.as_ref().map(|x| render(x, qs, None)).unwrap_or("_".into())).collect::<Vec<_>>().join(",")),
        Val::List(a) => format!("l[{}]", a.iter().map(|x| render(x, qs, None)).collect::<Vec<_>>().join(",")),
        Val::Future(v) => format!("F({})", render(v, qs, None)),
        Val::Fn(f) => format!("fn{:?}", f.mods),
        Val::Err(s, m) => format!("err{s}:{m}"),
        Val::Rng(s, c) => format!("rng{s}:{c}"),
        Val::Opaque(n, v) => format!("{n}({})", v.iter().map(|x| render(x, qs, None)).collect::<Vec<_>>().join(",")),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Summary {
    /// observation -> unnormalised states of the output qubits
    pub obs: BTreeMap<String, Vec<Vec<C>>>,
    pub paths: usize,
    pub gates: usize,
    pub steps: usize,
    pub events: usize,
}
#[derive(Clone, Debug)]
pub enum SimErr {
    Unsupported(String),
    Bad(String),
}

/// Runs `entry` (a function or dataflow region) on generic inputs. `out_types`: original output types for rendering.
pub fn simulate(h: &Hugr, entry: Node, in_types: &[Type], out_types: &[Type], o: &SimOpts) -> Result<Summary, SimErr> {
    let mut sum = Summary::default();
    let mut script: Vec<bool> = vec![];
    let mut order: HashMap<Node, Rc<Vec<Node>>> = HashMap::new();
    loop {
        let mut m = Machine {
            h,
            o,
            st: State::new(),
            next_q: 0,
            in_qubits: 0,
            script: script.clone(),
            pos: 0,
            taken: vec![],
            events: vec![],
            rec: vec![],
            steps: 0,
            order: std::mem::take(&mut order),
            depth: 0,
            rng_used: false,
            gate_count: 0,
        };
        let mut r = crate::gen::Rng::new(o.seed.wrapping_mul(77) ^ 0x1234);
        let mut nq = 0;
        let args: R<Vec<Val>> = in_types
            .iter()
            .map(|t| {
                make_val(t, &mut r, &mut || {
                    nq += 1;
                    nq - 1
                })
            })
            .collect();
        let mut args = match args {
            Ok(a) => a,
            Err(e) => return Err(SimErr::Unsupported(format!("{e:?}"))),
        };
        if o.lazy_inputs > 0 {
            args = args.into_iter().map(|v| lazy_input(v, o.lazy_inputs)).collect();
        }
        if nq > o.max_qubits {
            return Err(SimErr::Unsupported("too many qubits".into()));
        }
        m.st = State::generic(&(0..nq).collect::<Vec<_>>(), o.seed);
        m.next_q = nq;
        m.in_qubits = nq;
        let res = match h.get_optype(entry) {
            OpType::FuncDefn(_) => m.call(&FnVal { node: entry, args: vec![], mods: vec![] }, args),
            OpType::DFG(_) | OpType::Case(_) | OpType::DataflowBlock(_) => {
                let mut env = Env::new();
                m.region(&mut env, entry, args, &[])
            }
            OpType::TailLoop(_) | OpType::CFG(_) | OpType::Conditional(_) => {
                let mut env = Env::new();
                m.node(&mut env, entry, args, &[])
            }
            op => return Err(SimErr::Unsupported(format!("entry {op}"))),
        };
        sum.paths += 1;
        sum.gates = sum.gates.max(m.gate_count);
        sum.steps += m.steps;
        sum.events = sum.events.max(m.events.len());
        if sum.paths > o.max_paths || sum.steps > o.max_steps * 20 {
            return Err(SimErr::Unsupported("too many paths".into()));
        }
        let events = |m: &Machine| {
            let mut ev: Vec<String> = vec![];
            if o.ordered_events {
                ev.extend(m.events.iter().map(|(t, v)| format!("{t}={v}")));
            } else {
                ev.extend(m.events.iter().map(|(t, v)| format!("{t}={v}")));
                ev.sort();
            }
            ev.join(" ")
        };
        let mut prune = false;
        match res {
            Ok(vals) => {
                let mut qv = vec![];
                if vals.len() != out_types.len() {
                    return Err(SimErr::Bad(format!("{} outputs instead of {}", vals.len(), out_types.len())));
                }
                let txt: Vec<String> = vals.iter().zip(out_types).map(|(v, t)| render(v, &mut qv, Some(t))).collect();
                // qubits that are still live but not returned are lost: trace them out
                let lost: Vec<usize> = m.st.ids.iter().copied().filter(|q| !qv.contains(q)).collect();
                let mut dead = false;
                for q in lost {
                    match m.measure(q, true) {
                        Ok(_) => {}
                        Err(Halt::Zero) => {
                            dead = true;
                            break;
                        }
                        Err(e) => return Err(SimErr::Bad(format!("{e:?}"))),
                    }
                }
                if !dead {
                    let key = format!("{} | {}", txt.join(" "), events(&m));
                    let a = m.st.reorder(&qv).map_err(SimErr::Bad)?;
                    sum.obs.entry(key).or_default().push(a);
                }
            }
            Err(Halt::Zero) => prune = true,
            Err(Halt::Panic(msg)) => {
                // what a program does before panicking is observable only through its weight
                let w = m.st.norm2().sqrt();
                let key = if o.panic_events { format!("PANIC {msg} | {}", events(&m)) } else { "PANIC".into() };
                let e = sum.obs.entry(key).or_default();
                // weights of panicking branches add up
                if let Some(x) = e.first_mut() {
                    let s = (x[0].n2() + w * w).sqrt();
                    x[0] = C(s, 0.0);
                } else {
                    e.push(vec![C(w, 0.0)]);
                }
            }
            Err(Halt::Unsupported(s)) => return Err(SimErr::Unsupported(s)),
            Err(Halt::Bad(s)) => return Err(SimErr::Bad(s)),
        }
        let _ = prune;
        order = std::mem::take(&mut m.order);
        // next script: flip the last outcome that still has an unexplored alternative
        let mut t = m.taken;
        loop {
            match t.last() {
                None => return Ok(sum),
                Some((false, true)) => {
                    t.pop();
                    script = t.iter().map(|x| x.0).collect();
                    script.push(true);
                    break;
                }
                _ => {
                    t.pop();
                }
            }
        }
    }
}

fn gram(a: &[Vec<C>], b: &[Vec<C>]) -> f64 {
    let mut s = 0.0;
    for x in a {
        for y in b {
            if x.len() != y.len() {
                return f64::NAN;
            }
            s += inner(x, y).n2();
        }
    }
    s
}
/// Compares two instruments; `Err` says where they differ.
pub fn compare(a: &Summary, b: &Summary) -> Result<(), String> {
    let empty: Vec<Vec<C>> = vec![];
    let keys: std::collections::BTreeSet<&String> = a.obs.keys().chain(b.obs.keys()).collect();
    for k in keys {
        let x = a.obs.get(k).unwrap_or(&empty);
        let y = b.obs.get(k).unwrap_or(&empty);
        let d2 = gram(x, x) + gram(y, y) - 2.0 * gram(x, y);
        if !(d2 < 1e-9) {
            let w = |v: &Vec<Vec<C>>| v.iter().map(|s| s.iter().map(|c| c.n2()).sum::<f64>()).sum::<f64>();
            return Err(format!("observation `{k}`: weight {:.6} before, {:.6} after, distance² {:.3e}", w(x), w(y), d2));
        }
    }
    Ok(())
}
/// The port direction helper keeps imports honest.
pub const _D: Direction = Direction::Incoming;
