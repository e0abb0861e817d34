//! C28: extension operations, types and constants can be declared, recognised, built and stored without change.
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::run::*;
use hugr::builder::{BuildError, DFGBuilder, Dataflow, DataflowHugr};
use hugr::extension::simple_op::{MakeExtensionOp, MakeOpDef, MakeRegisteredOp};
use hugr::extension::{Extension, ExtensionRegistry, SignatureFunc};
use hugr::ops::constant::{CustomConst, Value};
use hugr::ops::{DataflowOpTrait, ExtensionOp, OpType};
use hugr::types::{Signature, Term, Type, TypeArg, TypeBound, TypeRow};
use hugr::{Hugr, HugrView, PortIndex, Wire};
use std::sync::{Arc, LazyLock};
use tket::extension::bool::{BoolOp, BoolOpBuilder, ConstBool};
use tket::extension::debug::{StateResult, StateResultDef};
use tket::extension::global_phase::GlobalPhase;
use tket::extension::modifier::Modifier;
use tket::extension::rotation::{ConstRotation, RotationOp, RotationOpBuilder};
use tket::extension::sympy::{SympyOp, SympyOpDef};
use tket::TketOp;
use tket_qsystem::extension::classical_compute::{gpu, wasm};
use tket_qsystem::extension::futures::{FutureOp, FutureOpBuilder, FutureOpDef};
use tket_qsystem::extension::qsystem::{QSystemOp, QSystemOpBuilder, RuntimeBarrierDef};
use tket_qsystem::extension::random::{RandomOp, RandomOpBuilder};
use tket_qsystem::extension::result::{ResultOp, ResultOpBuilder, ResultOpDef};
use tket_qsystem::extension::utils::{UtilsOp, UtilsOpBuilder};

const FILES: [&str; 14] = [
    "bool", "debug", "futures", "global_phase", "gpu", "guppy", "modifier", "qsystem", "qsystem/random", "qsystem/utils", "quantum", "result", "rotation", "wasm",
];
/// The extensions as published for users of other languages.
static PUBLISHED: LazyLock<ExtensionRegistry> = LazyLock::new(|| {
    let root = "/repo/tket-exts/src/tket_exts/data/tket";
    let exts: Vec<Extension> = FILES
        .iter()
        .map(|f| {
            let t = std::fs::read_to_string(format!("{root}/{f}.json")).unwrap_or_else(|e| panic!("cannot read the published {f}: {e}"));
            serde_json::from_str(&t).unwrap_or_else(|e| panic!("cannot load the published {f}: {e}"))
        })
        .collect();
    let std = hugr::std_extensions::std_reg();
    let mut all: Vec<Arc<Extension>> = std.iter().cloned().collect();
    all.extend(ExtensionRegistry::new_with_extension_resolution(exts, &(&std).into()).expect("cannot resolve the published extensions").iter().cloned());
    ExtensionRegistry::new(all)
});
/// Every operation name there is, in an extension that is not tket's.
static DECOY: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(hugr::extension::ExtensionId::new_unchecked("verif.decoy"), hugr::extension::Version::new(0, 1, 0), |ext, r| {
        for e in published() {
            for (name, def) in e.operations() {
                if let (None, SignatureFunc::PolyFuncType(p)) = (ext.get_op(name), def.signature_func()) {
                    ext.add_op(name.clone(), String::new(), p.clone(), r).unwrap();
                }
            }
        }
    })
});
fn published() -> Vec<&'static Arc<Extension>> {
    FILES.iter().map(|f| PUBLISHED.get(&format!("tket.{}", f.replace('/', "."))).expect("a published extension")).collect()
}

// ---- arguments
fn ty(c: &mut Case, bound: TypeBound, depth: usize) -> Type {
    let s = &mut c.src;
    let n = if depth == 0 { 9 } else { 20 };
    let copy = bound == TypeBound::Copyable;
    match s.below(n) {
        0 | 1 if !copy => t_q(),
        2 => t_b(),
        3 => t_tb(),
        4 => t_f(),
        5 => t_r(),
        6 => t_u(),
        7 => {
            let w = s.below(7) as u8;
            t_i(w)
        }
        8 => t_s(),
        9 | 10 => {
            let k = s.below(3);
            t_tup((0..k).map(|_| ty(c, bound, depth - 1)).collect())
        }
        11 => {
            let k = s.below(3);
            t_opt((0..k).map(|_| ty(c, bound, depth - 1)).collect())
        }
        12 | 13 if !copy => t_fut(ty(c, TypeBound::Linear, depth - 1)),
        14 => {
            let n = s.below(4) as u64;
            hugr::std_extensions::collections::value_array::value_array_type(n, ty(c, bound, depth - 1))
        }
        15 if !copy => {
            let n = s.below(4) as u64;
            hugr::std_extensions::collections::array::array_type(n, ty(c, bound, depth - 1))
        }
        16 => {
            let (a, b) = (types(c, TypeBound::Linear, depth - 1), types(c, TypeBound::Linear, depth - 1));
            Type::new_function(Signature::new(a, b))
        }
        17 => {
            let (a, b) = (types(c, TypeBound::Linear, depth - 1), types(c, TypeBound::Linear, depth - 1));
            if c.src.flip() {
                wasm::WasmType::new_func(a, b).into()
            } else {
                gpu::GpuType::new_func(a, b).into()
            }
        }
        18 if !copy => match s.below(4) {
            0 => wasm::WasmType::Context.into(),
            1 => gpu::GpuType::Context.into(),
            2 => wasm::WasmType::Result { outputs: types(c, TypeBound::Linear, depth - 1).into() }.into(),
            _ => gpu::GpuType::Result { outputs: types(c, TypeBound::Linear, depth - 1).into() }.into(),
        },
        19 => {
            if s.flip() {
                wasm::WasmType::Module.into()
            } else {
                gpu::GpuType::Module.into()
            }
        }
        _ => t_b(),
    }
}
fn types(c: &mut Case, bound: TypeBound, depth: usize) -> Vec<Type> {
    let n = c.src.below(4);
    (0..n).map(|_| ty(c, bound, depth)).collect()
}
fn text(c: &mut Case) -> String {
    let n = c.src.below(5);
    match n {
        0 => String::new(),
        1 => "tag".into(),
        2 => c.src.choose(&["测试", "a\"b", "a\\b", "a b\tc", "x\ny", "π/2", "Rz", "tket.quantum", "\u{1F600}", "<>&'"]).to_string(),
        _ => {
            let k = c.src.range(1, 12);
            (0..k).map(|_| c.src.choose(&['a', 'Z', '0', '_', '.', ':', ' ', '*', '+', '(', ')'])).collect()
        }
    }
}
/// A term of the given kind; sometimes (when `wrong`) of another one.
fn arg(c: &mut Case, p: &Term, wrong: bool) -> Term {
    if wrong && c.src.chance(1, 3) {
        let kinds = [Term::StringType, Term::max_nat_type(), Term::from(TypeBound::Linear), Term::new_list_type(TypeBound::Linear)];
        let k = c.src.choose(&kinds);
        return arg(c, &k, false);
    }
    match p {
        Term::RuntimeType(b) => {
            let b = if wrong && c.src.chance(1, 3) { TypeBound::Linear } else { *b };
            ty(c, b, 2).into()
        }
        Term::BoundedNatType(b) => {
            let lim = b.value().map(|v| u64::from(v));
            let n = match lim {
                Some(l) => c.src.below(l as usize + if wrong { 3 } else { 0 }) as u64,
                None => match c.src.below(4) {
                    0 => u64::MAX - c.src.below(3) as u64,
                    1 => 1 << c.src.below(63),
                    _ => c.src.below(20) as u64,
                },
            };
            TypeArg::BoundedNat(n)
        }
        Term::StringType => TypeArg::String(text(c)),
        Term::ListType(el) => {
            let n = c.src.below(4);
            TypeArg::List((0..n).map(|_| arg(c, el, wrong && n > 0)).collect())
        }
        other => panic!("no generator for parameters of kind {other}"),
    }
}
/// A published operation and arguments for it.
fn pick(c: &mut Case, wrong: bool) -> (&'static Arc<Extension>, String, Vec<TypeArg>) {
    let exts = published();
    let weights: Vec<usize> = exts.iter().map(|e| 2 + e.operations().count() + 4 * e.operations().filter(|(_, d)| d.params().is_ok_and(|p| !p.is_empty())).count()).collect();
    let e = exts[c.src.weighted(&weights)];
    let names: Vec<String> = e.operations().map(|(n, _)| n.to_string()).collect();
    let name = c.src.choose(&names);
    let params = e.get_op(&name).unwrap().params().unwrap().to_vec();
    let mut args: Vec<Term> = params.iter().map(|p| arg(c, p, wrong)).collect();
    if wrong && c.src.chance(1, 4) {
        if c.src.flip() {
            args.pop();
        } else {
            args.push(TypeArg::BoundedNat(1));
        }
    }
    (e, name, args)
}
fn shown(args: &[TypeArg]) -> String {
    args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join("; ")
}

/// What the library offers is what is published.
fn declared(c: &mut Case) -> Res {
    let wrong = c.src.chance(1, 3);
    let (e, name, args) = pick(c, wrong);
    let id = e.name().to_string();
    c.describe(|| format!("{id}.{name}<{}>", shown(&args)));
    let Some(mine) = REG.get(&id) else { return fail("declared: extension missing", id) };
    ensure!(mine.version() == e.version(), "declared: version", "{id} is {} but published as {}", mine.version(), e.version());
    let names = |e: &Extension| (e.operations().map(|o| o.0.to_string()).collect::<Vec<_>>(), e.types().map(|o| o.0.to_string()).collect::<Vec<_>>());
    ensure!(names(mine) == names(e), "declared: names", "{id} has {:?} but {:?} are published", names(mine), names(e));
    let poly = |e: &Extension| match e.get_op(&name).map(|o| o.signature_func()) {
        Some(SignatureFunc::PolyFuncType(p)) => Some(p.clone()),
        _ => None,
    };
    ensure!(poly(mine).is_some() && poly(mine) == poly(e), "declared: scheme", "{id}.{name} is {:?} but published as {:?}", poly(mine).map(|p| p.to_string()), poly(e).map(|p| p.to_string()));
    if c.src.chance(1, 8) {
        for (what, e) in [("library", mine), ("published", e)] {
            let mut r: Vec<Arc<Extension>> = hugr::std_extensions::std_reg().iter().cloned().collect();
            r.push(e.clone());
            let v = ExtensionRegistry::new(r).validate();
            ensure!(v.is_ok(), "declared: well formed", "{what} {id}: {v:?}");
        }
    }
    let (a, b) = (mine.instantiate_extension_op(&name, args.clone()), e.instantiate_extension_op(&name, args.clone()));
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            ensure!(*a.signature() == *b.signature(), "declared: signature", "{id}.{name}<{}> is {} but published as {}", shown(&args), a.signature(), b.signature());
            c.nontrivial = true;
            c.label("accepted");
        }
        (Err(_), Err(_)) => {
            c.nontrivial = true;
            c.label("refused");
        }
        _ => return fail("declared: accepted arguments", format!("{id}.{name}<{}> library: {:?}, published: {:?}", shown(&args), a.map(|o| o.signature().to_string()), b.map(|o| o.signature().to_string()))),
    }
    let j = |e: &Extension| serde_json::to_value(e).ok().and_then(|v| v["operations"][&name]["misc"].as_object().cloned()).unwrap_or_default();
    ensure!(j(mine) == j(e), "declared: annotations", "{id}.{name} has {:?} but {:?} are published", j(mine), j(e));
    let tys: Vec<String> = e.types().map(|t| t.0.to_string()).collect();
    if !tys.is_empty() {
        let t = c.src.choose(&tys);
        let params = e.get_type(&t).unwrap().params().to_vec();
        let args: Vec<Term> = params.iter().map(|p| arg(c, p, wrong)).collect();
        match (mine.get_type(&t).unwrap().instantiate(args.clone()), e.get_type(&t).unwrap().instantiate(args.clone())) {
            (Ok(a), Ok(b)) => ensure!(a == b, "declared: type", "{id}.{t}<{}> is {a:?} but published as {b:?}", shown(&args)),
            (Err(_), Err(_)) => {}
            (a, b) => return fail("declared: accepted type arguments", format!("{id}.{t}<{}> library: {a:?}, published: {b:?}", shown(&args))),
        }
    }
    c.fingerprint(&format!("{id}.{name}<{}>", shown(&args)));
    Ok(())
}

// ---- recognising
/// the operation as told by its own type: (extension, name, arguments, operation)
type Told = (String, String, Option<Vec<TypeArg>>, Option<ExtensionOp>);
fn told<T: MakeRegisteredOp>(o: T) -> Told {
    (o.extension_id().to_string(), o.op_id().to_string(), Some(o.type_args()), o.to_extension_op())
}
/// for types that know the operation but not its arguments
fn told_def<T: MakeOpDef>(o: T) -> Told {
    (o.extension().to_string(), o.opdef_id().to_string(), None, None)
}
const READERS: &[(&str, fn(&ExtensionOp) -> Option<Told>)] = &[
    ("TketOp", |o| TketOp::from_extension_op(o).ok().map(told)),
    ("BoolOp", |o| BoolOp::from_extension_op(o).ok().map(told)),
    ("RotationOp", |o| RotationOp::from_extension_op(o).ok().map(told)),
    ("GlobalPhase", |o| GlobalPhase::from_extension_op(o).ok().map(told)),
    ("Modifier", |o| Modifier::from_extension_op(o).ok().map(told_def)),
    ("SympyOp", |o| SympyOp::from_extension_op(o).ok().map(told)),
    ("SympyOpDef", |o| SympyOpDef::from_extension_op(o).ok().map(told_def)),
    ("StateResult", |o| StateResult::from_extension_op(o).ok().map(told)),
    ("StateResultDef", |o| StateResultDef::from_extension_op(o).ok().map(told_def)),
    ("QSystemOp", |o| QSystemOp::from_extension_op(o).ok().map(told)),
    ("RuntimeBarrierDef", |o| RuntimeBarrierDef::from_extension_op(o).ok().map(told_def)),
    ("FutureOp", |o| FutureOp::from_extension_op(o).ok().map(told)),
    ("FutureOpDef", |o| FutureOpDef::from_extension_op(o).ok().map(told_def)),
    ("ResultOp", |o| ResultOp::from_extension_op(o).ok().map(told)),
    ("ResultOpDef", |o| ResultOpDef::from_extension_op(o).ok().map(told_def)),
    ("RandomOp", |o| RandomOp::from_extension_op(o).ok().map(told)),
    ("UtilsOp", |o| UtilsOp::from_extension_op(o).ok().map(told)),
    ("WasmOp", |o| wasm::WasmOp::from_extension_op(o).ok().map(told)),
    ("WasmOpDef", |o| wasm::WasmOpDef::from_extension_op(o).ok().map(told_def)),
    ("GpuOp", |o| gpu::GpuOp::from_extension_op(o).ok().map(told)),
    ("GpuOpDef", |o| gpu::GpuOpDef::from_extension_op(o).ok().map(told_def)),
];
/// which of the types above have to know the operation
fn readers(ext: &str, name: &str) -> &'static [&'static str] {
    match (ext, name) {
        ("tket.quantum", "symbolic_angle") => &["SympyOp", "SympyOpDef"],
        ("tket.quantum", _) => &["TketOp"],
        ("tket.bool", _) => &["BoolOp"],
        ("tket.rotation", _) => &["RotationOp"],
        ("tket.global_phase", _) => &["GlobalPhase"],
        ("tket.modifier", _) => &["Modifier"],
        ("tket.debug", _) => &["StateResult", "StateResultDef"],
        ("tket.qsystem", "RuntimeBarrier") => &["RuntimeBarrierDef"],
        ("tket.qsystem", _) => &["QSystemOp"],
        ("tket.futures", _) => &["FutureOp", "FutureOpDef"],
        ("tket.result", _) => &["ResultOp", "ResultOpDef"],
        ("tket.qsystem.random", _) => &["RandomOp"],
        ("tket.qsystem.utils", _) => &["UtilsOp"],
        ("tket.wasm", _) => &["WasmOp", "WasmOpDef"],
        ("tket.gpu", _) => &["GpuOp", "GpuOpDef"],
        _ => &[],
    }
}
fn recognise(what: &str, op: &ExtensionOp, should: &[&str]) -> Res {
    let (ext, name, args) = (op.def().extension_id().to_string(), op.def().name().to_string(), op.args().to_vec());
    let full = format!("{ext}.{name}<{}>", shown(&args));
    for (r, f) in READERS {
        let got = no_panic("from_extension_op", || f(op))?;
        ensure!(got.is_some() == should.contains(r), format!("{what}: recognised"), "{full}: {r} {}", if got.is_some() { "takes it for its own" } else { "does not know it" });
        let Some((e, n, a, o)) = got else { continue };
        ensure!(e == ext && n == name, format!("{what}: identity"), "{full} read as {e}.{n} by {r}");
        let Some(a) = a else { continue };
        ensure!(a == args, format!("{what}: arguments"), "{full} read as {n}<{}> by {r}", shown(&a));
        let Some(o) = o else { return fail(format!("{what}: cannot convert back"), format!("{full} by {r}")) };
        ensure!(o.def().extension_id() == op.def().extension_id() && o.def().name() == op.def().name() && o.args() == op.args(), format!("{what}: converted"), "{full} became {}.{}<{}>", o.def().extension_id(), o.def().name(), shown(o.args()));
        ensure!(*o.signature() == *op.signature(), format!("{what}: signature"), "{full} was {} and became {}", op.signature(), o.signature());
    }
    Ok(())
}
fn single(op: &ExtensionOp) -> Result<Hugr, String> {
    let sig = op.signature().into_owned();
    let mut b = DFGBuilder::new(sig).map_err(|e| e.to_string())?;
    let ins: Vec<Wire> = b.input_wires().collect();
    let o = b.add_dataflow_op(op.clone(), ins).map_err(|e| e.to_string())?;
    b.finish_hugr_with_outputs(o.outputs()).map_err(|e| e.to_string())
}
fn the_op(h: &Hugr) -> Option<ExtensionOp> {
    let mut it = h.nodes().filter_map(|n| h.get_optype(n).as_extension_op());
    let o = it.next()?.clone();
    it.next().is_none().then_some(o)
}
/// Operations are known by exactly the types made for them, also after they were stored.
fn recognised(c: &mut Case) -> Res {
    let (e, name, args) = pick(c, false);
    let id = e.name().to_string();
    let form = c.src.below(5);
    c.describe(|| format!("{id}.{name}<{}>, form {form}", shown(&args)));
    let Ok(op) = REG.get(&id).unwrap().instantiate_extension_op(&name, args.clone()) else { return Err(Stop::Discard("not an operation")) };
    let should = readers(&id, &name);
    recognise("operation", &op, should)?;
    let matches = |what: &str, o: &ExtensionOp, ours: bool| -> Res {
        let o: OpType = o.clone().into();
        let all = PUBLISHED.get("tket.quantum").unwrap().operations().map(|x| x.0.to_string()).filter_map(|n| n.parse::<TketOp>().ok()).collect::<Vec<_>>();
        ensure!(all.len() >= 20, "operations by name", "{all:?}");
        for t in all {
            let got = no_panic("op_matches", || tket::op_matches(&o, t))?;
            let want = ours && id == "tket.quantum" && name == format!("{t:?}");
            ensure!(got == want, "op_matches", "{what} {id}.{name} and {t:?}: {got}");
        }
        Ok(())
    };
    matches("operation", &op, true)?;
    // of the published definition
    let Ok(p) = e.instantiate_extension_op(&name, args.clone()) else { return Err(Stop::Discard("not an operation")) };
    recognise("published operation", &p, should)?;
    matches("published operation", &p, true)?;
    // of another extension
    if let Ok(d) = DECOY.instantiate_extension_op(&name, args.clone()) {
        recognise("operation of another extension", &d, &[])?;
        matches("operation of another extension", &d, false)?;
    }
    if form < 4 {
        let h = match single(&op) {
            Ok(h) => h,
            Err(e) => return fail("operation: cannot build a program", format!("{id}.{name}<{}>: {e}", shown(&args))),
        };
        let bytes = super::c29::envelope(&h, form);
        let theirs = c.src.flip();
        let reg: &ExtensionRegistry = if theirs { &PUBLISHED } else { &REG };
        let h2 = match Hugr::load(&bytes[..], Some(reg)) {
            Ok(h) => h,
            Err(e) => return fail("stored operation: cannot load", format!("{id}.{name}<{}>: {e}", shown(&args))),
        };
        if let Err(e) = h2.validate() {
            return fail("stored operation: invalid", format!("{id}.{name}<{}>: {e}", shown(&args)));
        }
        let Some(o2) = the_op(&h2) else { return fail("stored operation: lost", format!("{id}.{name}<{}>\n{}", shown(&args), show(&h2))) };
        ensure!(o2.args() == op.args() && *o2.signature() == *op.signature(), "stored operation: changed", "{id}.{name}<{}> became {}<{}>", shown(&args), o2.def().name(), shown(o2.args()));
        recognise("stored operation", &o2, should)?;
        c.label(if theirs { "stored, published definitions" } else { "stored" });
    }
    c.nontrivial = true;
    c.fingerprint(&format!("{id}.{name}<{}>{form}", shown(&args)));
    Ok(())
}

// ---- constants and types
fn through(v: &Value, c: &mut Case) -> Res<Value> {
    let mut b = DFGBuilder::new(Signature::new(vec![], vec![v.get_type()])).unwrap();
    let w = b.add_load_value(v.clone());
    let h = b.finish_hugr_with_outputs([w]).unwrap();
    let form = c.src.below(4);
    let bytes = super::c29::envelope(&h, form);
    match Hugr::load(&bytes[..], Some(&REG)) {
        Ok(h) => {
            valid(&h, "constant")?;
            let v = h.nodes().find_map(|n| h.get_optype(n).as_const()).map(|k| k.value().clone());
            v.map_or_else(|| fail("constant: lost", "").map(|_: ()| unreachable!()), Ok)
        }
        Err(e) => fail("constant: cannot load", format!("{v:?} {e}")).map(|_: ()| unreachable!()),
    }
}
fn same_const(what: &str, a: &dyn CustomConst, v: &Value, ty: &Type) -> Res {
    let Value::Extension { e } = v else { return fail(format!("{what}: kind"), format!("{v:?}")) };
    ensure!(a.equal_consts(e.value()) && e.value().equal_consts(a), format!("{what}: changed"), "{} became {v:?}", a.name());
    ensure!(a.get_type() == *ty && v.get_type() == *ty, format!("{what}: type"), "{} has type {}, then {}", a.name(), a.get_type(), v.get_type());
    ensure!(a.name() == e.name(), format!("{what}: name"), "{} became {}", a.name(), e.name());
    Ok(())
}
fn constants(c: &mut Case) -> Res {
    c.nontrivial = true;
    match c.src.below(6) {
        0 => {
            let b = c.src.flip();
            let k = ConstBool::new(b);
            c.describe(|| format!("{k:?}"));
            ensure!(k.value() == b && !k.equal_consts(&ConstBool::new(!b)), "bool constant: value", "{k:?}");
            let v = through(&k.clone().into(), c)?;
            same_const("bool constant", &k, &v, &t_tb())?;
            ensure!(v.get_custom_value::<ConstBool>().map(|k| k.value()) == Some(b), "bool constant: value", "{v:?}");
            let h: ConstBool = serde_json::from_value(serde_json::to_value(&k).unwrap()).unwrap();
            ensure!(h == k, "bool constant: json", "{h:?}");
            c.fingerprint(&format!("{k:?}"));
        }
        1 | 2 => {
            let x = match c.src.below(8) {
                0 => f64::NAN,
                1 => c.src.choose(&[f64::INFINITY, f64::NEG_INFINITY]),
                2 => c.src.choose(&[f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1e-300, -0.0, 5e-324, 1e22, 0.1 + 0.2]),
                3 => f64::from_bits(((c.src.draw(1 << 32) as u64) << 32) | c.src.draw(1 << 32) as u64),
                _ => c.src.float(),
            };
            c.describe(|| format!("rotation {x:?}"));
            let Ok(k) = ConstRotation::new(x) else {
                ensure!(!x.is_finite(), "rotation constant: refused", "{x:?}");
                c.label("refused");
                return Ok(());
            };
            ensure!(x.is_finite() && k.half_turns().to_bits() == x.to_bits(), "rotation constant: value", "{x:?} gives {k:?}");
            let y = x + 1.0;
            if y != x && y.is_finite() {
                ensure!(!k.equal_consts(&ConstRotation::new(y).unwrap()), "rotation constant: equality", "{x:?} = {y:?}");
            }
            let r = k.to_radians();
            ensure!((r - x * std::f64::consts::PI).abs() <= 1e-15 * r.abs() || !r.is_finite(), "rotation constant: radians", "{x:?} half turns are {r:?} radians");
            if r.is_finite() {
                let b = ConstRotation::from_radians(r).unwrap().half_turns();
                ensure!((b - x).abs() <= 1e-15 * x.abs() + 1e-307, "rotation constant: from radians", "{x:?} became {b:?}");
            } else {
                ensure!(ConstRotation::from_radians(r).is_err(), "rotation constant: from radians", "{r:?} accepted");
            }
            let v = through(&k.clone().into(), c)?;
            let got = v.get_custom_value::<ConstRotation>().map(|k| k.half_turns());
            // JSON numbers may be read with the last bit off
            ensure!(got.is_some_and(|g| (g - x).abs() <= 4e-16 * x.abs()), "rotation constant: stored", "{x:?} became {got:?}");
            if got == Some(x) {
                same_const("rotation constant", &k, &v, &t_r())?;
            }
            c.fingerprint(&format!("{x:?}"));
        }
        3 => {
            let (s, t) = (text(c), text(c));
            let g = c.src.flip();
            c.describe(|| format!("module {s:?} {g}"));
            if g {
                let conf = |c: &mut Case| if c.src.flip() { Some(text(c)) } else { None };
                let k = gpu::ConstGpuModule { module_filename: s.clone(), config_filename: conf(c) };
                let l = gpu::ConstGpuModule { module_filename: t.clone(), config_filename: if c.src.flip() { k.config_filename.clone() } else { conf(c) } };
                ensure!(k.equal_consts(&l) == (s == t && k.config_filename == l.config_filename) && !k.equal_consts(&wasm::ConstWasmModule { module_filename: s.clone() }), "module constant: equality", "{k:?} {l:?}");
                let v = through(&k.clone().into(), c)?;
                same_const("module constant", &k, &v, &gpu::GpuType::Module.into())?;
                ensure!(v.get_custom_value::<gpu::ConstGpuModule>() == Some(&k), "module constant: value", "{k:?} became {v:?}");
            } else {
                let k = wasm::ConstWasmModule { module_filename: s.clone() };
                ensure!(k.equal_consts(&wasm::ConstWasmModule { module_filename: t.clone() }) == (s == t) && !k.equal_consts(&gpu::ConstGpuModule { module_filename: s.clone(), config_filename: None }), "module constant: equality", "{s:?} {t:?}");
                let v = through(&k.clone().into(), c)?;
                same_const("module constant", &k, &v, &wasm::WasmType::Module.into())?;
                ensure!(v.get_custom_value::<wasm::ConstWasmModule>() == Some(&k), "module constant: value", "{s:?} became {v:?}");
            }
            c.fingerprint(&format!("{s:?}{g}"));
        }
        _ => {
            // types
            let (a, b) = (types(c, TypeBound::Linear, 2), types(c, TypeBound::Linear, 2));
            let which = c.src.below(4);
            let g = c.src.flip();
            c.describe(|| format!("type {which} {g} {a:?} {b:?}"));
            let w = [wasm::WasmType::Module, wasm::WasmType::Context, wasm::WasmType::new_func(a.clone(), b.clone()), wasm::WasmType::Result { outputs: b.clone().into() }][which].clone();
            let u = [gpu::GpuType::Module, gpu::GpuType::Context, gpu::GpuType::new_func(a.clone(), b.clone()), gpu::GpuType::Result { outputs: b.clone().into() }][which].clone();
            let (wt, ut): (Type, Type) = (w.clone().into(), u.clone().into());
            ensure!(wasm::WasmType::try_from(wt.clone()).as_ref() == Ok(&w) && gpu::GpuType::try_from(ut.clone()).as_ref() == Ok(&u), "compute type: round trip", "{wt} {ut}");
            ensure!(wasm::WasmType::try_from(ut.clone()).is_err() && gpu::GpuType::try_from(wt.clone()).is_err(), "compute type: taken for another", "{wt} {ut}");
            let copy = which == 0 || which == 2;
            ensure!(wt.copyable() == copy && ut.copyable() == copy, "compute type: copyable", "{wt} {ut}");
            // agreement with the definition in the extension
            let (name, args): (&str, Vec<TypeArg>) = match which {
                0 => ("module", vec![]),
                1 => ("context", vec![]),
                2 => ("func", vec![TypeRow::from(a.clone()).into(), TypeRow::from(b.clone()).into()]),
                _ => ("result", vec![TypeRow::from(b.clone()).into()]),
            };
            for (e, t) in [("tket.wasm", &wt), ("tket.gpu", &ut)] {
                for reg in [&*REG, &*PUBLISHED] {
                    let k = reg.get(e).unwrap().get_type(name).unwrap().instantiate(args.clone());
                    ensure!(k.as_ref().is_ok_and(|k| Type::from(k.clone()) == *t), "compute type: definition", "{t} is defined as {k:?}");
                }
            }
            let other = ty(c, TypeBound::Linear, 2);
            let is = |t: &Type, e: &str| matches!(t.as_type_enum(), hugr::types::TypeEnum::Extension(x) if x.extension().to_string() == e);
            ensure!(wasm::WasmType::try_from(other.clone()).is_ok() == is(&other, "tket.wasm"), "compute type: recognised", "{other}");
            ensure!(gpu::GpuType::try_from(other.clone()).is_ok() == is(&other, "tket.gpu"), "compute type: recognised", "{other}");
            let t = t_fut(other.clone());
            ensure!(!t.copyable() && is(&t, "tket.futures"), "future type", "{t}");
            c.fingerprint(&format!("{which}{a:?}{b:?}{g}"));
        }
    }
    Ok(())
}

// ---- building
type Built = Result<Vec<Wire>, BuildError>;
type D = DFGBuilder<Hugr>;
/// The methods that add single operations.
const METHODS: &[(&str, &str, fn(&mut D, &[Wire], &[TypeArg], &OpType) -> Built)] = &[
    ("tket.bool", "read", |b, w, _, _| b.add_bool_read(w[0]).map(Vec::from)),
    ("tket.bool", "make_opaque", |b, w, _, _| b.add_bool_make_opaque(w[0]).map(Vec::from)),
    ("tket.bool", "eq", |b, w, _, _| b.add_eq(w[0], w[1]).map(Vec::from)),
    ("tket.bool", "not", |b, w, _, _| b.add_not(w[0]).map(Vec::from)),
    ("tket.bool", "and", |b, w, _, _| b.add_and(w[0], w[1]).map(Vec::from)),
    ("tket.bool", "or", |b, w, _, _| b.add_or(w[0], w[1]).map(Vec::from)),
    ("tket.bool", "xor", |b, w, _, _| b.add_xor(w[0], w[1]).map(Vec::from)),
    ("tket.rotation", "from_halfturns", |b, w, _, _| b.add_from_halfturns(w[0]).map(|w| vec![w])),
    ("tket.rotation", "from_halfturns_unchecked", |b, w, _, _| b.add_from_halfturns_unchecked(w[0]).map(|w| vec![w])),
    ("tket.rotation", "to_halfturns", |b, w, _, _| b.add_to_halfturns(w[0]).map(|w| vec![w])),
    ("tket.futures", "Read", |b, w, a, _| FutureOpBuilder::add_read(b, w[0], a[0].as_runtime().unwrap()).map(Vec::from)),
    ("tket.futures", "Dup", |b, w, a, _| b.add_dup(w[0], a[0].as_runtime().unwrap()).map(Vec::from)),
    ("tket.futures", "Free", |b, w, a, _| b.add_free(w[0], a[0].as_runtime().unwrap()).map(|_| vec![])),
    ("tket.qsystem", "LazyMeasure", |b, w, _, _| b.add_lazy_measure(w[0]).map(|w| vec![w])),
    ("tket.qsystem", "LazyMeasureLeaked", |b, w, _, _| b.add_lazy_measure_leaked(w[0]).map(|w| vec![w])),
    ("tket.qsystem", "LazyMeasureReset", |b, w, _, _| b.add_lazy_measure_reset(w[0]).map(Vec::from)),
    ("tket.qsystem", "Measure", |b, w, _, _| b.add_measure(w[0]).map(|w| vec![w])),
    ("tket.qsystem", "Reset", |b, w, _, _| b.add_reset(w[0]).map(|w| vec![w])),
    ("tket.qsystem", "MeasureReset", |b, w, _, _| b.add_measure_reset(w[0]).map(Vec::from)),
    ("tket.qsystem", "ZZPhase", |b, w, _, _| b.add_zz_phase(w[0], w[1], w[2]).map(Vec::from)),
    ("tket.qsystem", "PhasedX", |b, w, _, _| b.add_phased_x(w[0], w[1], w[2]).map(|w| vec![w])),
    ("tket.qsystem", "Rz", |b, w, _, _| b.add_rz(w[0], w[1]).map(|w| vec![w])),
    ("tket.qsystem", "TryQAlloc", |b, _, _, _| b.add_try_alloc().map(|w| vec![w])),
    ("tket.qsystem", "QFree", |b, w, _, _| b.add_qfree(w[0]).map(|_| vec![])),
    ("tket.qsystem", "RuntimeBarrier", |b, w, a, _| b.add_runtime_barrier(w[0], a[0].as_nat().unwrap()).map(|w| vec![w])),
    ("tket.qsystem.random", "RandomInt", |b, w, _, _| b.add_random_int(w[0]).map(Vec::from)),
    ("tket.qsystem.random", "RandomFloat", |b, w, _, _| b.add_random_float(w[0]).map(Vec::from)),
    ("tket.qsystem.random", "RandomIntBounded", |b, w, _, _| b.add_random_int_bounded(w[0], w[1]).map(Vec::from)),
    ("tket.qsystem.random", "RandomAdvance", |b, w, _, _| b.add_random_advance(w[0], w[1]).map(|w| vec![w])),
    ("tket.qsystem.random", "NewRNGContext", |b, w, _, _| b.add_new_rng_context(w[0]).map(|w| vec![w])),
    ("tket.qsystem.random", "DeleteRNGContext", |b, w, _, _| b.add_delete_rng_context(w[0]).map(|_| vec![])),
    ("tket.qsystem.utils", "GetCurrentShot", |b, _, _, _| b.add_get_current_shot().map(|w| vec![w])),
    ("tket.result", "result_bool", |b, w, a, _| b.add_result(w[0], ResultOp::new_bool(a[0].as_string().unwrap())).map(|_| vec![])),
    ("tket.result", "result_f64", |b, w, a, _| b.add_result(w[0], ResultOp::new_f64(a[0].as_string().unwrap())).map(|_| vec![])),
    ("tket.result", "result_int", |b, w, a, _| b.add_result(w[0], ResultOp::new_int(a[0].as_string().unwrap(), a[1].as_nat().unwrap() as u8)).map(|_| vec![])),
    ("tket.result", "result_uint", |b, w, a, _| b.add_result(w[0], ResultOp::new_uint(a[0].as_string().unwrap(), a[1].as_nat().unwrap() as u8)).map(|_| vec![])),
    ("tket.result", "result_array_bool", |b, w, a, _| b.add_result(w[0], ResultOp::new_bool(a[0].as_string().unwrap()).array_op(a[1].as_nat().unwrap())).map(|_| vec![])),
    ("tket.result", "result_array_f64", |b, w, a, _| b.add_result(w[0], ResultOp::new_f64(a[0].as_string().unwrap()).array_op(7).array_op(a[1].as_nat().unwrap())).map(|_| vec![])),
    ("tket.result", "result_array_int", |b, w, a, _| b.add_result(w[0], ResultOp::new_int(a[0].as_string().unwrap(), a[2].as_nat().unwrap() as u8).array_op(a[1].as_nat().unwrap())).map(|_| vec![])),
    ("tket.result", "result_array_uint", |b, w, a, _| b.add_result(w[0], ResultOp::new_uint(a[0].as_string().unwrap(), a[2].as_nat().unwrap() as u8).array_op(a[1].as_nat().unwrap())).map(|_| vec![])),
    ("tket.wasm", "get_context", |b, w, _, _| wasm::WasmOpBuilder::add_get_context(b, w[0]).map(|w| vec![w])),
    ("tket.wasm", "dispose_context", |b, w, _, _| wasm::WasmOpBuilder::add_dispose_context(b, w[0]).map(|_| vec![])),
    ("tket.wasm", "lookup_by_id", |b, w, a, _| wasm::WasmOpBuilder::add_lookup_by_id(b, a[0].as_nat().unwrap(), trow(&a[1]), trow(&a[2]), w[0]).map(|w| vec![w])),
    ("tket.wasm", "lookup_by_name", |b, w, a, _| wasm::WasmOpBuilder::add_lookup_by_name(b, a[0].as_string().unwrap(), trow(&a[1]), trow(&a[2]), w[0]).map(|w| vec![w])),
    ("tket.wasm", "call", |b, w, _, _| wasm::WasmOpBuilder::add_call(b, w[0], w[1], w[2..].iter().copied()).map(|w| vec![w])),
    ("tket.wasm", "read_result", |b, w, _, _| wasm::WasmOpBuilder::add_read_result(b, w[0]).map(|(c, r)| [vec![c], r].concat())),
    ("tket.gpu", "get_context", |b, w, _, _| gpu::GpuOpBuilder::add_get_context(b, w[0]).map(|w| vec![w])),
    ("tket.gpu", "dispose_context", |b, w, _, _| gpu::GpuOpBuilder::add_dispose_context(b, w[0]).map(|_| vec![])),
    ("tket.gpu", "lookup_by_id", |b, w, a, _| gpu::GpuOpBuilder::add_lookup_by_id(b, a[0].as_nat().unwrap(), trow(&a[1]), trow(&a[2]), w[0]).map(|w| vec![w])),
    ("tket.gpu", "lookup_by_name", |b, w, a, _| gpu::GpuOpBuilder::add_lookup_by_name(b, a[0].as_string().unwrap(), trow(&a[1]), trow(&a[2]), w[0]).map(|w| vec![w])),
    ("tket.gpu", "call", |b, w, _, _| gpu::GpuOpBuilder::add_call(b, w[0], w[1], w[2..].iter().copied()).map(|w| vec![w])),
    ("tket.gpu", "read_result", |b, w, _, _| gpu::GpuOpBuilder::add_read_result(b, w[0]).map(|(c, r)| [vec![c], r].concat())),
];
fn trow(a: &TypeArg) -> TypeRow {
    let TypeArg::List(l) = a else { panic!("not a list: {a}") };
    l.iter().map(|t| t.as_runtime().unwrap()).collect::<Vec<_>>().into()
}
/// The builder methods add the operation they are named for, wired in order.
fn built(c: &mut Case) -> Res {
    let (ext, name, f) = METHODS[c.src.below(METHODS.len())];
    let params = PUBLISHED.get(ext).unwrap().get_op(name).unwrap().params().unwrap().to_vec();
    let args: Vec<Term> = params.iter().map(|p| arg(c, p, false)).collect();
    let full = format!("{ext}.{name}<{}>", shown(&args));
    c.describe(|| full.clone());
    let Ok(want) = PUBLISHED.get(ext).unwrap().instantiate_extension_op(name, args.clone()) else { return Err(Stop::Discard("not an operation")) };
    let s = want.signature().into_owned();
    let mut b = DFGBuilder::new(s.clone()).unwrap();
    let ins: Vec<Wire> = b.input_wires().collect();
    let o = OpType::from(want.clone());
    let h = no_panic("builder method", || f(&mut b, &ins, &args, &o).and_then(|w| b.finish_hugr_with_outputs(w)))?;
    let h = match h {
        Ok(h) => h,
        Err(e) => return fail("builder method: error", format!("{full}: {e}")),
    };
    valid(&h, "builder method")?;
    let n: Vec<_> = h.nodes().filter(|n| h.get_optype(*n).is_extension_op()).collect();
    ensure!(n.len() == 1, "builder method: operations", "{full}\n{}", show(&h));
    let n = n[0];
    let got = h.get_optype(n).as_extension_op().unwrap();
    ensure!(got.def().extension_id() == want.def().extension_id() && got.def().name() == want.def().name() && got.args() == want.args(), "builder method: operation", "{full} gave {}.{}<{}>", got.def().extension_id(), got.def().name(), shown(got.args()));
    let [i, o] = h.get_io(h.entrypoint()).unwrap();
    for k in 0..s.input().len() {
        ensure!(h.single_linked_output(n, k).is_some_and(|(m, p)| m == i && p.index() == k), "builder method: inputs", "{full}: input {k}\n{}", show(&h));
    }
    for k in 0..s.output().len() {
        ensure!(h.single_linked_output(o, k).is_some_and(|(m, p)| m == n && p.index() == k), "builder method: outputs", "{full}: output {k}\n{}", show(&h));
    }
    c.nontrivial = true;
    c.fingerprint(&full);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "an operation, a type or a constant was compared",
        assumptions: &[],
        suites: vec![
            Suite { name: "declared", quick: 30000, thorough: 500000, run: declared },
            Suite { name: "recognised", quick: 30000, thorough: 300000, run: recognised },
            Suite { name: "constants", quick: 15000, thorough: 200000, run: constants },
            Suite { name: "built", quick: 10000, thorough: 200000, run: built },
        ],
        hang_violation: None,
    }
}
