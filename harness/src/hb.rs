//! Building HUGRs node by node, with full control over ports and insertion order.
use hugr::builder::inout_sig;
use hugr::extension::prelude;
use hugr::extension::{Extension, ExtensionRegistry};
use hugr::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr::ops::constant::Value;
use hugr::ops::{self, OpTrait, OpType};
use hugr::std_extensions::arithmetic::{float_types, int_types};
use hugr::std_extensions::collections::{array, borrow_array, static_array, value_array};
use hugr::types::{PolyFuncTypeRV, FuncValueType, Signature, Term, Type, TypeArg, TypeBound, TypeRow, TypeRV};
use hugr::ops::dataflow::IOTrait as _;
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, NodeIndex as _, OutgoingPort, PortIndex};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{Arc, LazyLock};

pub static TEST_EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(hugr::extension::ExtensionId::new_unchecked("verif.test"), hugr::extension::Version::new(0, 1, 0), |ext, r| {
        for name in ["op", "op2"] {
            ext.add_op(
                name.into(),
                "An operation nobody knows".into(),
                PolyFuncTypeRV::new(
                    vec![Term::StringType, Term::new_list_type(TypeBound::Linear), Term::new_list_type(TypeBound::Linear)],
                    FuncValueType::new(
                        vec![TypeRV::new_row_var_use(1, TypeBound::Linear)],
                        vec![TypeRV::new_row_var_use(2, TypeBound::Linear)],
                    ),
                ),
                r,
            )
            .unwrap();
        }
    })
});

pub static REG: LazyLock<ExtensionRegistry> = LazyLock::new(|| {
    let mut v: Vec<Arc<Extension>> = hugr::std_extensions::std_reg().iter().cloned().collect();
    v.push(tket::extension::TKET1_EXTENSION.clone());
    v.push(tket::extension::TKET_EXTENSION.clone());
    v.push(tket::extension::bool::BOOL_EXTENSION.clone());
    v.push(tket::extension::debug::DEBUG_EXTENSION.clone());
    v.push(tket::extension::guppy::GUPPY_EXTENSION.clone());
    v.push(tket::extension::rotation::ROTATION_EXTENSION.clone());
    v.push(tket::extension::modifier::MODIFIER_EXTENSION.clone());
    v.push(tket::extension::global_phase::GLOBAL_PHASE_EXTENSION.clone());
    v.push(tket_qsystem::extension::futures::EXTENSION.clone());
    v.push(tket_qsystem::extension::qsystem::EXTENSION.clone());
    v.push(tket_qsystem::extension::random::EXTENSION.clone());
    v.push(tket_qsystem::extension::result::EXTENSION.clone());
    v.push(tket_qsystem::extension::utils::EXTENSION.clone());
    v.push(tket_qsystem::extension::wasm::EXTENSION.clone());
    v.push(tket_qsystem::extension::gpu::EXTENSION.clone());
    v.push(TEST_EXT.clone());
    ExtensionRegistry::new(v)
});

thread_local! {
    static OPS: RefCell<HashMap<String, OpType>> = RefCell::new(HashMap::new());
}
/// The operation `ext.name<args>`.
pub fn xop(ext: &str, name: &str, args: &[TypeArg]) -> OpType {
    let key = format!("{ext}.{name}{args:?}");
    if let Some(o) = OPS.with(|m| m.borrow().get(&key).cloned()) {
        return o;
    }
    let e = REG.get(ext).unwrap_or_else(|| panic!("no extension {ext}"));
    let o: OpType = match e.instantiate_extension_op(name, args.to_vec()) {
        Ok(o) => o.into(),
        Err(err) => panic!("cannot make {key}: {err}"),
    };
    OPS.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() < 5000 {
            m.insert(key, o.clone());
        }
    });
    o
}
pub fn q(name: &str) -> OpType {
    xop("tket.quantum", name, &[])
}
pub fn qs(name: &str) -> OpType {
    xop("tket.qsystem", name, &[])
}

pub fn t_q() -> Type {
    prelude::qb_t()
}
pub fn t_b() -> Type {
    prelude::bool_t()
}
pub fn t_tb() -> Type {
    tket::extension::bool::bool_type()
}
pub fn t_f() -> Type {
    float_types::float64_type()
}
pub fn t_r() -> Type {
    tket::extension::rotation::rotation_type()
}
pub fn t_u() -> Type {
    prelude::usize_t()
}
pub fn t_i(w: u8) -> Type {
    int_types::int_type(w as u64)
}
pub fn t_s() -> Type {
    prelude::string_type()
}
pub fn t_fut(t: Type) -> Type {
    tket_qsystem::extension::futures::future_type(t)
}
pub fn t_tup(ts: Vec<Type>) -> Type {
    Type::new_tuple(ts)
}
pub fn t_opt(ts: Vec<Type>) -> Type {
    Type::from(prelude::option_type(ts))
}
pub fn t_sum(rows: Vec<Vec<Type>>) -> Type {
    Type::new_sum(rows.into_iter().map(TypeRow::from).collect::<Vec<_>>())
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum AK {
    Array,
    Value,
    Borrow,
}
impl AK {
    pub fn ext(self) -> &'static str {
        match self {
            AK::Array => "collections.array",
            AK::Value => "collections.value_array",
            AK::Borrow => "collections.borrow_arr",
        }
    }
}
pub fn t_arr(k: AK, n: u64, t: Type) -> Type {
    match k {
        AK::Array => array::array_type(n, t),
        AK::Value => value_array::value_array_type(n, t),
        AK::Borrow => borrow_array::borrow_array_type(n, t),
    }
}
pub fn t_sarr(t: Type) -> Type {
    static_array::static_array_type(t)
}
/// (kind, size, element) of an array type
pub fn arr_of(t: &Type) -> Option<(AK, u64, Type)> {
    let c = t.as_extension()?;
    let k = match c.extension().to_string().as_str() {
        "collections.array" => AK::Array,
        "collections.value_array" => AK::Value,
        "collections.borrow_arr" => AK::Borrow,
        _ => return None,
    };
    match c.args() {
        [Term::BoundedNat(n), Term::Runtime(t)] => Some((k, *n, t.clone())),
        _ => None,
    }
}
pub fn sum_rows(t: &Type) -> Option<Vec<Vec<Type>>> {
    let s = t.as_sum()?;
    s.variants()
        .map(|r| TypeRow::try_from(r.clone()).ok().map(|r| r.iter().cloned().collect::<Vec<Type>>()))
        .collect()
}
pub fn tuple_of(t: &Type) -> Option<Vec<Type>> {
    let r = sum_rows(t)?;
    if r.len() == 1 {
        Some(r.into_iter().next().unwrap())
    } else {
        None
    }
}
pub fn is_q(t: &Type) -> bool {
    *t == t_q()
}
pub fn is_fn(t: &Type) -> bool {
    matches!(t.as_type_enum(), hugr::types::TypeEnum::Function(_))
}
pub fn ext_name(t: &Type) -> Option<(String, String)> {
    let c = t.as_extension()?;
    Some((c.extension().to_string(), c.name().to_string()))
}
pub fn ta(t: &Type) -> TypeArg {
    t.clone().into()
}
pub fn nat(n: u64) -> TypeArg {
    Term::BoundedNat(n)
}
pub fn lst(ts: &[Type]) -> TypeArg {
    Term::List(ts.iter().map(|t| ta(t)).collect())
}
pub fn row(ts: &[Type]) -> TypeRow {
    ts.to_vec().into()
}
pub fn sig(i: &[Type], o: &[Type]) -> Signature {
    inout_sig(i.to_vec(), o.to_vec())
}
/// Whether values of t contain qubits.
pub fn has_qubit(t: &Type) -> bool {
    if is_q(t) {
        return true;
    }
    if let Some(r) = sum_rows(t) {
        return r.iter().flatten().any(has_qubit);
    }
    if let Some((_, _, e)) = arr_of(t) {
        return has_qubit(&e);
    }
    false
}
pub fn qubits_in(t: &Type) -> usize {
    if is_q(t) {
        return 1;
    }
    if let Some(r) = sum_rows(t) {
        return r.iter().map(|r| r.iter().map(qubits_in).sum::<usize>()).max().unwrap_or(0);
    }
    if let Some((_, n, e)) = arr_of(t) {
        return n as usize * qubits_in(&e);
    }
    0
}

pub fn c_f(x: f64) -> Value {
    float_types::ConstF64::new(x).into()
}
pub fn c_r(x: f64) -> Value {
    tket::extension::rotation::ConstRotation::new(x).unwrap().into()
}
pub fn c_u(x: u64) -> Value {
    prelude::ConstUsize::new(x).into()
}
pub fn c_i(w: u8, x: u64) -> Value {
    int_types::ConstInt::new_u(w, x).unwrap().into()
}
pub fn c_b(b: bool) -> Value {
    if b {
        Value::true_val()
    } else {
        Value::false_val()
    }
}
pub fn c_tb(b: bool) -> Value {
    tket::extension::bool::ConstBool::new(b).into()
}
pub fn c_s(s: &str) -> Value {
    prelude::ConstString::new(s.to_string()).into()
}
pub fn c_err(sg: u32, m: &str) -> Value {
    prelude::ConstError::new(sg, m).into()
}

#[derive(Clone, Debug)]
pub struct Wire {
    pub n: Node,
    pub p: usize,
    pub t: Type,
}
/// A dataflow region under construction.
#[derive(Clone, Debug)]
pub struct Region {
    pub parent: Node,
    pub input: Node,
    pub output: Node,
    pub wires: Vec<Wire>,
    pub depth: usize,
    /// executable operations added, in order
    pub ops: Vec<Node>,
    pub events: Vec<Node>,
    /// constants already loaded here
    pub loaded: Vec<(Node, Wire)>,
}

pub fn fix_ports(h: &mut Hugr, n: Node) {
    let (i, o) = (h.get_optype(n).input_count(), h.get_optype(n).output_count());
    h.set_num_ports(n, i, o);
}
pub fn set_op(h: &mut Hugr, n: Node, op: impl Into<OpType>) {
    *h.optype_mut(n) = op.into();
    fix_ports(h, n);
}
pub fn new_region(h: &mut Hugr, parent: Node, ins: &[Type], depth: usize) -> Region {
    let input = h.add_node_with_parent(parent, ops::Input::new(row(ins)));
    let output = h.add_node_with_parent(parent, ops::Output::new(TypeRow::new()));
    let wires = ins.iter().enumerate().map(|(p, t)| Wire { n: input, p, t: t.clone() }).collect();
    Region { parent, input, output, wires, depth, ops: vec![], events: vec![], loaded: vec![] }
}
pub fn set_outputs(h: &mut Hugr, r: &Region, outs: &[Wire]) {
    set_op(h, r.output, ops::Output::new(outs.iter().map(|w| w.t.clone()).collect::<Vec<_>>()));
    for (i, w) in outs.iter().enumerate() {
        h.connect(w.n, OutgoingPort::from(w.p), r.output, IncomingPort::from(i));
    }
}
/// Adds an operation with the given inputs; its outputs.
pub fn add(h: &mut Hugr, r: &mut Region, op: impl Into<OpType>, ins: &[Wire]) -> Vec<Wire> {
    let n = h.add_node_with_parent(r.parent, op);
    for (i, w) in ins.iter().enumerate() {
        h.connect(w.n, OutgoingPort::from(w.p), n, IncomingPort::from(i));
    }
    r.ops.push(n);
    outs(h, n)
}
pub fn outs(h: &Hugr, n: Node) -> Vec<Wire> {
    let sg = h.get_optype(n).dataflow_signature();
    match sg {
        Some(s) => s.output().iter().enumerate().map(|(p, t)| Wire { n, p, t: t.clone() }).collect(),
        None => vec![],
    }
}
pub fn load_const(h: &mut Hugr, r: &mut Region, v: Value, at: Node) -> Wire {
    let c = h.add_node_with_parent(at, ops::Const::new(v));
    load(h, r, c)
}
pub fn load(h: &mut Hugr, r: &mut Region, c: Node) -> Wire {
    let t = match h.get_optype(c) {
        OpType::Const(c) => c.get_type(),
        _ => unreachable!(),
    };
    let l = h.add_node_with_parent(r.parent, ops::LoadConstant { datatype: t.clone() });
    h.connect(c, 0, l, 0);
    Wire { n: l, p: 0, t }
}
pub fn in_order(h: &Hugr, n: Node) -> bool {
    h.get_optype(n).other_input_port().is_some()
}
pub fn out_order(h: &Hugr, n: Node) -> bool {
    h.get_optype(n).other_output_port().is_some()
}

/// The same graph with nodes inserted in another order (children of unordered regions permuted).
pub fn relabel(h: &Hugr, src: &mut crate::gen::Src, gaps: bool) -> (Hugr, HashMap<Node, Node>) {
    let mut out = Hugr::new();
    let mut map: HashMap<Node, Node> = HashMap::new();
    map.insert(h.module_root(), out.module_root());
    let mut extra = vec![];
    fn meta(h: &Hugr, out: &mut Hugr, a: Node, b: Node) {
        for (k, v) in h.node_metadata_map(a) {
            out.set_metadata(b, k, v.clone());
        }
    }
    use hugr_core::hugr::internal::HugrInternals;
    meta(h, &mut out, h.module_root(), map[&h.module_root()]);
    // breadth or depth first, decided once
    let dfs = src.flip();
    let mut queue = vec![h.module_root()];
    while let Some(p) = if dfs { queue.pop() } else if queue.is_empty() { None } else { Some(queue.remove(0)) } {
        let kids: Vec<Node> = h.children(p).collect();
        let op = h.get_optype(p);
        let fixed = match op {
            OpType::Conditional(_) => kids.len(),
            OpType::Module(_) => 0,
            _ => 2.min(kids.len()),
        };
        let mut perm = kids[fixed..].to_vec();
        src.shuffle(&mut perm);
        let order: Vec<Node> = kids[..fixed].iter().copied().chain(perm).collect();
        let np = map[&p];
        for k in order {
            if gaps && src.chance(1, 8) {
                extra.push(out.add_node_with_parent(np, ops::Const::new(c_b(false))));
            }
            let n = out.add_node_with_parent(np, h.get_optype(k).clone());
            meta(h, &mut out, k, n);
            map.insert(k, n);
            if h.children(k).next().is_some() {
                queue.push(k);
            }
        }
    }
    let mut edges = vec![];
    let mut nodes: Vec<Node> = map.keys().copied().collect();
    nodes.sort();
    for n in nodes {
        for p in h.node_outputs(n) {
            for (t, tp) in h.linked_inputs(n, p) {
                edges.push((n, p, t, tp));
            }
        }
    }
    src.shuffle(&mut edges);
    for (n, p, t, tp) in edges {
        out.connect(map[&n], p, map[&t], tp);
    }
    for e in extra {
        out.remove_node(e);
    }
    out.set_entrypoint(map[&h.entrypoint()]);
    let exts = h.extensions().clone();
    out.use_extensions(exts);
    (out, map)
}

/// Text of a whole program, stable enough to read.
pub fn show(h: &Hugr) -> String {
    fn go(h: &Hugr, n: Node, ind: usize, out: &mut String) {
        use std::fmt::Write;
        let op = h.get_optype(n);
        let ins: Vec<String> = h
            .node_inputs(n)
            .flat_map(|p| h.linked_outputs(n, p).map(move |(a, b)| format!("{}:{}>{}", a.index(), b.index(), p.index())).collect::<Vec<_>>())
            .collect();
        let name = match op {
            OpType::Const(c) => format!("Const {:?}", c.value()).chars().take(160).collect(),
            OpType::FuncDefn(f) => format!("FuncDefn {} {}", f.func_name(), f.signature()),
            OpType::ExtensionOp(e) => format!("{}{}", e.qualified_id(), if e.args().is_empty() { String::new() } else { format!("<{}>", e.args().iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")) }),
            o => match o.dataflow_signature() {
                Some(s) => format!("{o} {s}"),
                None => format!("{o}"),
            },
        };
        let e = if n == h.entrypoint() { "*" } else { "" };
        let _ = writeln!(out, "{}{}{} {} [{}]", " ".repeat(ind), n.index(), e, name, ins.join(" "));
        for c in h.children(n) {
            go(h, c, ind + 1, out);
        }
    }
    let mut s = String::new();
    go(h, h.module_root(), 0, &mut s);
    s
}
pub const IN: Direction = Direction::Incoming;
