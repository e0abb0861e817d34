//! C04: envelopes.
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::prog::*;
use crate::run::*;
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{DataflowOpTrait, OpTrait, OpType};
use hugr_core::hugr::internal::HugrInternals;
use hugr::package::Package;
use hugr::types::Term;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr::{Hugr, HugrView, Node, PortIndex};
use std::collections::HashMap;
use std::num::NonZeroU8;
use tket::serialize::CircuitLoadError;
use tket::Circuit;
use K::*;

/// A description of a program that does not depend on node numbers or on where constants are defined.
pub fn canon(h: &Hugr) -> String {
    canon_with(h, true)
}
pub fn canon_with(h: &Hugr, all_metadata: bool) -> String {
    let mut num: HashMap<Node, usize> = HashMap::new();
    fn pre(h: &Hugr, n: Node, m: &mut HashMap<Node, usize>) {
        if matches!(h.get_optype(n), OpType::Const(_)) {
            return;
        }
        m.insert(n, m.len());
        for c in h.children(n) {
            pre(h, c, m);
        }
    }
    pre(h, h.module_root(), &mut num);
    let mut out = String::new();
    fn go(h: &Hugr, n: Node, ind: usize, num: &HashMap<Node, usize>, all_metadata: bool, out: &mut String) {
        use std::fmt::Write;
        let op = h.get_optype(n);
        let mut ins: Vec<String> = h
            .node_inputs(n)
            .flat_map(|p| h.linked_outputs(n, p).map(move |(a, b)| match h.get_optype(a) {
                OpType::Const(c) => format!("{:?}>{}", c.value(), p.index()),
                _ => format!("{}:{}>{}", num[&a], b.index(), p.index()),
            }).collect::<Vec<_>>())
            .collect();
        ins.sort();
        let name = match op {
            OpType::Const(_) => return,
            OpType::FuncDefn(f) => format!("FuncDefn {:?} {} {:?}", f.func_name(), f.signature(), f.visibility()),
            OpType::FuncDecl(f) => format!("FuncDecl {:?} {} {:?}", f.func_name(), f.signature(), f.visibility()),
            OpType::ExtensionOp(e) => format!("{}<{}> {}", e.qualified_id(), e.args().iter().map(|a| a.to_string()).collect::<Vec<_>>().join(","), e.signature()),
            OpType::Tag(t) => format!("Tag {} {:?}", t.tag, t.variants),
            OpType::DataflowBlock(b) => format!("Block {:?}", b),
            o => match o.dataflow_signature() {
                Some(s) => format!("{o} {s}"),
                None => format!("{o}"),
            },
        };
        let e = if n == h.entrypoint() { "*" } else { "" };
        let mut md: Vec<String> = h.node_metadata_map(n).iter().map(|(k, v)| format!("{k}={v}")).collect();
        md.sort();
        // the model formats have no such nodes
        if !all_metadata && matches!(op, OpType::Input(_) | OpType::Output(_) | OpType::Case(_) | OpType::ExitBlock(_) | OpType::Module(_)) {
            md.clear();
        }
        let _ = writeln!(out, "{}{}{} {} [{}] {:?}", " ".repeat(ind), num[&n], e, name, ins.join(" "), md);
        for c in h.children(n) {
            go(h, c, ind + 1, num, all_metadata, out);
        }
    }
    go(h, h.module_root(), 0, &num, all_metadata, &mut out);
    out
}
fn wide(c: &mut Case) -> Cfg {
    let mut k = Cfg::new(&[(G1, 4), (GRot, 3), (G2, 3), (CRz, 1), (G3, 1), (Phase, 1)]).with(&[
        (Alloc, 2), (K::Free, 1), (Reset, 1), (Meas, 2), (MeasFree, 1), (Rot, 2), (Flt, 2), (Log, 2), (TB, 2), (Int, 2), (Conv, 2), (Tup, 2), (Untup, 1), (TagOp, 2), (UnwrapSum, 1), (Noop, 2), (Dfg, 3), (Cond, 3), (Loop, 2),
        (CfgN, 2), (Call, 2), (CallInd, 2), (Arr, 2), (ArrOp, 2), (Bor, 1), (ResOp, 3), (Const, 3), (K::Barrier, 2), (Order, 2), (TryAlloc, 1), (SArr, 1), (Unknown, 1), (Decl, 1), (ResArr, 1), (StateRes, 1), (QRz, 1), (QPx, 1), (QZz, 1),
        (QMeas, 1), (Lazy, 1), (Fut, 1), (RtBarrier, 1), (Panic, 1), (RngOp, 1), (Shot, 1), (DropOp, 1), (Print, 1), (QReset, 1), (QMeasReset, 1),
    ]);
    k.ops = (0, 14);
    k.funcs = 2;
    k.const_away = true;
    k.symbols = c.src.flip();
    k.computed_angles = true;
    k.out_copy = 3;
    k
}
const NAMES: &[&str] = &["main", "f0", "", "a b", "x.y", "\"q\"", "né", "::", "\\n", "日本", "_entry", "f'"];
fn rename(h: &mut Hugr, n: Node, name: &str) {
    let op = match h.get_optype(n).clone() {
        OpType::FuncDefn(f) => OpType::FuncDefn(hugr::ops::FuncDefn::new_vis(name, f.signature().clone(), f.visibility().clone())),
        o => o,
    };
    set_op(h, n, op);
}
fn circuit_program(c: &mut Case, names: bool) -> Program {
    circuit_of(c, names, &[])
}
fn circuit_of(c: &mut Case, names: bool, but: &[K]) -> Program {
    let k = wide(c).without(but);
    let mut p = program(&mut c.src, &k);
    // another name for the main function: public names have to be unique
    if names && c.src.chance(1, 3) {
        let used: Vec<String> = p.h.children(p.h.module_root()).filter_map(|n| func_name(&p.h, n)).collect();
        let nm = c.src.choose(NAMES);
        if !used.iter().any(|u| u == nm) {
            let m = p.main;
            rename(&mut p.h, m, nm);
        }
    }
    let rs = super::c01::dataflow_regions(&p.h);
    if c.src.chance(1, 3) {
        let r = c.src.choose(&rs);
        p.h.set_entrypoint(r);
    }
    // metadata
    let ns: Vec<Node> = p.h.descendants(p.h.module_root()).collect();
    for _ in 0..c.src.below(4) {
        let n = c.src.choose(&ns);
        let key = c.src.choose(&["k", "TKET1.phase", "name", "a b", "é"]);
        let v = match c.src.below(5) {
            0 => serde_json::json!("text \"quoted\" \n é"),
            1 => serde_json::json!(-3),
            2 => serde_json::json!([1.5, null, true]),
            3 => serde_json::json!({"x": {"y": []}}),
            _ => serde_json::json!(""),
        };
        p.h.set_metadata(n, key, v);
        c.label("metadata");
    }
    p
}
fn func_name(h: &Hugr, n: Node) -> Option<String> {
    match h.get_optype(n) {
        OpType::FuncDefn(f) => Some(f.func_name().clone()),
        OpType::FuncDecl(f) => Some(f.func_name().clone()),
        _ => None,
    }
}
fn is_model_text(k: &EnvelopeConfig) -> bool {
    matches!(k.format, EnvelopeFormat::ModelText | EnvelopeFormat::ModelTextWithExtensions)
}
fn config(c: &mut Case) -> EnvelopeConfig {
    let f = c.src.choose(&[EnvelopeFormat::PackageJson, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelTextWithExtensions, EnvelopeFormat::Model, EnvelopeFormat::ModelText]);
    let k = EnvelopeConfig::new(f);
    match c.src.below(3) {
        0 => k,
        1 => k.with_zstd(ZstdConfig::default()),
        _ => {
            let mut z = ZstdConfig::default();
            z.level = NonZeroU8::new(1 + c.src.below(12) as u8);
            k.with_zstd(z)
        }
    }
}
/// Extensions of other crates.
const OTHERS: &[&str] = &["tket.qsystem", "tket.futures", "tket.result", "tket.qsystem.random", "tket.qsystem.utils", "verif.test"];
/// Whether hugr itself stores and loads this faithfully.
fn hugr_can(h: &Hugr, k: EnvelopeConfig) -> bool {
    let md = k.format == EnvelopeFormat::PackageJson;
    let r = catch(|| {
        let mut b = vec![];
        Package::from_hugr(h.clone()).store(&mut b, k).ok()?;
        Package::load(&b[..], Some(&REG)).ok()?.modules.into_iter().next()
    });
    match r {
        Ok(Some(g)) => matches!(catch(|| g.validate().is_ok()), Ok(true)) && canon_with(&g, md) == canon_with(h, md),
        _ => false,
    }
}
fn blame(r: Res, hs: &[Hugr], k: EnvelopeConfig) -> Res {
    match r {
        Err(Stop::Fail { sig, detail }) if hs.iter().any(|h| !hugr_can(h, k)) => fail(format!("in hugr's {:?}", k.format), format!("hugr's own storing and loading fails\n{sig}\n{detail}")),
        r => r,
    }
}
fn roundtrip(c: &mut Case) -> Res {
    let k = config(c);
    // hugr's text format only has identifiers as names
    let p = circuit_program(c, !is_model_text(&k));
    must_validate(&p.h, "generated program");
    c.describe(|| show(&p.h));
    label_feats(c, &p);
    let r = roundtrip_judge(c, &p, k);
    blame(r, std::slice::from_ref(&p.h), k)?;
    c.nontrivial = p.n_ops >= 2;
    c.fingerprint(&show(&p.h));
    Ok(())
}
fn roundtrip_judge(c: &mut Case, p: &Program, k: EnvelopeConfig) -> Res {
    let circ = Circuit::new(p.h.clone());
    c.label(format!("{:?}{}", k.format, if k.zstd.is_some() { " zstd" } else { "" }));
    let known = p.h.nodes().all(|n| super::c24::ext_of(&p.h, n).is_none_or(|(e, _)| !OTHERS.contains(&e.as_str())));
    let regs = if !known || c.src.flip() { Some(&*REG) } else { None };
    // known: a compressed envelope stored as text panics
    let text = k.format.ascii_printable() && k.zstd.is_none();
    let back = if c.src.flip() {
        match no_panic("store_str", || circ.store_str(k))? {
            Ok(s) => {
                ensure!(text, "store_str: binary as text", "a binary envelope is stored as text");
                no_panic("load_str", || Circuit::load_str(&s, regs))?
            }
            Err(e) => {
                ensure!(!text, "store_str: error", "{e}");
                c.label("not text");
                return Ok(());
            }
        }
    } else {
        let mut b = vec![];
        if let Err(e) = no_panic("store", || circ.store(&mut b, k))? {
            return fail("store: error", e.to_string());
        }
        no_panic("load", || Circuit::load(&b[..], regs))?
    };
    let back = match back {
        Ok(x) => x,
        Err(e) => return fail(format!("load: error {:?}", k.format), format!("{e} {e:?}\n{}", circ.store_str(EnvelopeConfig::new(EnvelopeFormat::ModelTextWithExtensions)).unwrap_or_default())),
    };
    valid(back.hugr(), "load")?;
    let md = k.format == EnvelopeFormat::PackageJson;
    let (a, b) = (canon_with(&p.h, md), canon_with(back.hugr(), md));
    if a != b {
        let d = a.lines().zip(b.lines()).find(|(x, y)| x != y).map(|(x, y)| format!("{x}\nbecomes\n{y}")).unwrap_or_else(|| "length".into());
        return fail(format!("{:?}: different program", k.format), d);
    }
    ensure!(circ.name() == back.name(), "name", "{:?} becomes {:?}", circ.name(), back.name());
    Ok(())
}
/// Packages with several modules: the first function of the name is selected, by either entry point.
fn functions(c: &mut Case) -> Res {
    let k = config(c);
    let n = c.src.range(1, 3);
    let mut ms = vec![];
    for _ in 0..n {
        let mut p = circuit_of(c, !is_model_text(&k), &[QRz, QPx, QZz, QMeas, Lazy, Fut, RtBarrier, RngOp, Shot, QReset, QMeasReset, ResOp, ResArr, K::QFree, Unknown, Decl]);
        if c.src.chance(1, 3) {
            let r = p.h.module_root();
            p.h.set_entrypoint(r);
        }
        must_validate(&p.h, "generated program");
        ms.push(p.h);
    }
    c.describe(|| ms.iter().map(show).collect::<Vec<_>>().join("---\n"));
    let mut names: Vec<String> = NAMES.iter().take(4).map(|s| s.to_string()).collect();
    for m in &ms {
        names.extend(m.children(m.module_root()).filter_map(|n| func_name(m, n)));
    }
    names.push("Main".into());
    let name = c.src.choose(&names);
    let r = functions_judge(c, &ms, &name, k);
    blame(r, &ms, k)?;
    c.nontrivial = true;
    c.fingerprint(&format!("{name}{}", ms.iter().map(show).collect::<String>()));
    Ok(())
}
fn functions_judge(c: &mut Case, ms: &[Hugr], name: &str, k: EnvelopeConfig) -> Res {
    let pkg = Package::new(ms.to_vec());
    let mut b = vec![];
    if let Err(e) = no_panic("store", || pkg.store(&mut b, k))? {
        return fail("store: error", e.to_string());
    }
    let want = ms.iter().find_map(|m| m.children(m.module_root()).find(|n| matches!(m.get_optype(*n), OpType::FuncDefn(f) if f.func_name() == name)).map(|n| (m, n)));
    let got = if k.format.ascii_printable() && k.zstd.is_none() && c.src.flip() {
        no_panic("load_function_str", || Circuit::load_function_str(std::str::from_utf8(&b).unwrap(), name))?
    } else {
        no_panic("load_function", || Circuit::load_function(&b[..], name))?
    };
    match (want, got) {
        (Some((m, n)), Ok(g)) => {
            let mut m = m.clone();
            m.set_entrypoint(n);
            valid(g.hugr(), "load_function")?;
            let md = k.format == EnvelopeFormat::PackageJson;
            let (a, b) = (canon_with(&m, md), canon_with(g.hugr(), md));
            ensure!(a == b, "load_function: different program", "{name:?} gives\n{b}\ninstead of\n{a}");
            ensure!(g.name().unwrap_or("") == name, "load_function: name", "{name:?} gives {:?}", g.name());
            c.label("found");
        }
        (None, Err(e)) => {
            let ok = matches!(e, CircuitLoadError::FunctionNotFound { .. } | CircuitLoadError::CircuitLoadError(_));
            ensure!(ok, "load_function: wrong error", "{name:?}: {e}");
            if let CircuitLoadError::FunctionNotFound { function, available_functions } = e {
                ensure!(function == name, "load_function: wrong error", "{name:?} reported as {function:?}");
                for m in ms {
                    for f in m.children(m.module_root()) {
                        if let OpType::FuncDefn(f) = m.get_optype(f) {
                            ensure!(available_functions.contains(f.func_name()), "load_function: functions available", "{} is not listed in {available_functions:?}", f.func_name());
                        }
                    }
                }
            }
            c.label("missing");
        }
        (Some(_), Err(e)) => return fail("load_function: error", format!("{name:?}: {e}")),
        (None, Ok(g)) => return fail("load_function: found nothing", format!("{name:?} does not exist, got {:?}\n{}", g.name(), show(g.hugr()))),
    }
    Ok(())
}
/// Damaged files.
fn corrupt(c: &mut Case) -> Res {
    let mut p = circuit_program(c, true);
    must_validate(&p.h, "generated program");
    if c.src.chance(1, 4) {
        let r = c.src.choose(&p.h.descendants(p.h.module_root()).collect::<Vec<_>>());
        p.h.set_entrypoint(r);
    }
    let mut k = config(c);
    if c.src.chance(3, 4) {
        k = k.disable_compression();
    }
    let mut b = vec![];
    if Package::from_hugr(p.h.clone()).store(&mut b, k).is_err() {
        return Err(Stop::Discard("cannot be stored"));
    }
    let mut what = vec![];
    if c.src.chance(1, 6) {
        b = (0..c.src.below(60)).map(|_| c.src.below(256) as u8).collect();
        what.push("random bytes".to_string());
    }
    for _ in 0..c.src.range(0, 3) {
        if b.is_empty() {
            break;
        }
        let head = c.src.chance(1, 5);
        let i = if head { c.src.below(b.len().min(12)) } else { c.src.below(b.len()) };
        // hugr's binary readers overflow the stack on terms made cyclic
        let binary = matches!(k.format, EnvelopeFormat::Model | EnvelopeFormat::ModelWithExtensions) && i >= 10;
        match if binary { 0 } else { c.src.below(6) } {
            0 => {
                b.truncate(i);
                what.push(format!("truncate at {i}"));
            }
            1 => {
                let bit = c.src.below(8);
                b[i] ^= 1 << bit;
                what.push(format!("flip bit {bit} of {i}"));
            }
            2 => {
                b[i] = c.src.below(256) as u8;
                what.push(format!("set {i} to {}", b[i]));
            }
            3 => {
                let l = c.src.range(1, 8).min(b.len() - i);
                b.drain(i..i + l);
                what.push(format!("remove {l} at {i}"));
            }
            4 => {
                let l = c.src.range(1, 20).min(b.len() - i);
                let x = b[i..i + l].to_vec();
                b.splice(i..i, x);
                what.push(format!("repeat {l} at {i}"));
            }
            _ => {
                // change a number or a name
                let j = (i..b.len()).find(|j| b[*j].is_ascii_digit());
                if let Some(j) = j {
                    b[j] = b'0' + c.src.below(10) as u8;
                    what.push(format!("digit at {j}"));
                }
            }
        }
    }
    c.describe(|| format!("{k:?} {what:?}\n{}\n{}", show(&p.h), String::from_utf8_lossy(&b)));
    c.label(format!("{:?}{}", k.format, if k.zstd.is_some() { " zstd" } else { "" }));
    match corrupt_judge(c, &b) {
        // hugr's own reader panics on damaged files; only code of this repository is judged here
        Err(Stop::Fail { sig, detail }) if sig.contains("panic@") && !sig.contains("panic@tket") => return fail("panic in hugr's loading of a damaged file", format!("{sig}\n{detail}")),
        r => r?,
    }
    c.nontrivial = !what.is_empty();
    c.fingerprint(&format!("{what:?}{}", show(&p.h)));
    Ok(())
}
fn corrupt_judge(c: &mut Case, b: &[u8]) -> Res {
    let r = no_panic("load", || Circuit::load(b, None).map(|x| x.into_hugr()))?;
    if let Ok(h) = &r {
        valid(h, "load")?;
        c.label("still loads");
    }
    let name = c.src.choose(&["main", "f0", ""]);
    if let Ok(g) = no_panic("load_function", || Circuit::load_function(b, name).map(|x| x.into_hugr()))? {
        valid(&g, "load_function")?;
    }
    if let Ok(s) = std::str::from_utf8(b) {
        let _ = no_panic("load_str", || Circuit::load_str(s, None).map(|_| ()))?;
        let _ = no_panic("load_function_str", || Circuit::load_function_str(s, name).map(|_| ()))?;
    }
    Ok(())
}
/// Files with opaque pytket operations, whose argument may be anything.
fn tk1(c: &mut Case) -> Res {
    let (nq, nb, np) = (c.src.below(4), c.src.below(3), c.src.below(3));
    let mut params = vec![];
    for i in 0..np {
        params.push(c.src.choose(&["0.5".to_string(), format!("a{i}"), "sin(x)".into()]));
    }
    let mut op = serde_json::json!({"type": c.src.choose(&["CustomGate", "CH", "Barrier", "U3"]), "params": params});
    if np == 0 && c.src.flip() {
        op.as_object_mut().unwrap().remove("params");
    }
    let arg = serde_json::json!({"op": op, "num_qubits": nq, "num_bits": nb, "param_inputs": (0..np).map(|i| serde_json::json!({"index": i})).collect::<Vec<_>>(), "num_params": np}).to_string();
    let ins: Vec<_> = (0..nq).map(|_| t_q()).chain((0..nb).map(|_| t_b())).collect();
    let (mut h, f, mut r) = {
        let mut h = Hugr::new();
        let root = h.module_root();
        let f = h.add_node_with_parent(root, hugr::ops::FuncDefn::new_vis("main", sig(&ins, &ins), hugr_core::Visibility::Public));
        let r = new_region(&mut h, f, &ins, 0);
        h.set_entrypoint(f);
        (h, f, r)
    };
    let mut ws = outs(&h, r.input);
    for i in 0..np {
        ws.push(load_const(&mut h, &mut r, c_r(0.25 * i as f64), f));
    }
    let os = add(&mut h, &mut r, xop("TKET1", "tk1op", &[Term::String(arg.clone())]), &ws);
    set_outputs(&mut h, &r, &os);
    must_validate(&h, "generated program");
    let k = config(c).disable_compression();
    let mut b = vec![];
    if let Err(e) = no_panic("store", || Circuit::new(h.clone()).store(&mut b, k))? {
        return fail("store: error", e.to_string());
    }
    c.label(format!("{:?}", k.format));
    let back = match no_panic("load", || Circuit::load(&b[..], None))? {
        Ok(x) => x.into_hugr(),
        Err(e) => return fail(format!("load: error {:?}", k.format), format!("{arg}\n{e} {e:?}")),
    };
    let (x, y) = (canon(&h), canon(&back));
    ensure!(x == y, "tk1: different program", "{x}\nbecomes\n{y}");
    // now damage the argument, as text of the same length in the file
    let mut a = arg.clone().into_bytes();
    let how = c.src.below(4);
    let i = c.src.below(a.len());
    match how {
        0 => a[i] = c.src.choose(&[b' ', b'x', b',', b'[', b'}', b'-', b':']),
        1 => a = c.src.choose(&["", "{}", "null", "7", "[]", "{\"op\": {}}", "text"]).as_bytes().to_vec(),
        2 => a.truncate(i),
        _ => {
            let l = c.src.range(1, 12).min(a.len() - i);
            a.drain(i..i + l);
        }
    }
    let damaged = String::from_utf8(a).unwrap();
    c.describe(|| format!("{arg}\n{damaged}"));
    let mut v = h.clone();
    let n = v.children(f).nth(2 + 2 * np).unwrap_or(f);
    let n = v.children(f).find(|n| matches!(v.get_optype(*n), OpType::ExtensionOp(_))).unwrap_or(n);
    let opaque = hugr::ops::custom::OpaqueOp::new(tket::extension::TKET1_EXTENSION_ID, "tk1op", vec![Term::String(damaged.clone())], sig(&[ins.clone(), vec![t_r(); np]].concat(), &ins));
    *v.optype_mut(n) = OpType::OpaqueOp(opaque);
    let mut b = vec![];
    // hugr may refuse to store it
    if !matches!(catch(|| Package::from_hugr(v).store(&mut b, k)), Ok(Ok(()))) {
        return Err(Stop::Discard("cannot be stored"));
    }
    match no_panic("load damaged", || Circuit::load(&b[..], None))? {
        Ok(g) => valid(g.hugr(), "load damaged")?,
        Err(_) => c.label("refused"),
    }
    match no_panic("load_function damaged", || Circuit::load_function(&b[..], "main"))? {
        Ok(g) => valid(g.hugr(), "load damaged")?,
        Err(_) => (),
    }
    c.nontrivial = true;
    c.fingerprint(&format!("{arg}{damaged}"));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "roundtrip: two or more operations; functions: any; corrupt: at least one byte changed; tk1: any",
        assumptions: &[],
        suites: vec![
            Suite { name: "roundtrip", quick: 60000, thorough: 1500000, run: roundtrip },
            Suite { name: "functions", quick: 20000, thorough: 500000, run: functions },
            Suite { name: "corrupt", quick: 40000, thorough: 1500000, run: corrupt },
            Suite { name: "tk1", quick: 20000, thorough: 400000, run: tk1 },
        ],
        hang_violation: None,
    }
}
