//! C05: circuits written to pytket and read back.
use super::c06::{check_form, enc_opts, opts, short, sims};
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::prog::*;
use crate::pytket as pt;
use crate::run::*;
use hugr::types::Type;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::dataflow::IOTrait;
use hugr::ops::OpParent;
use hugr::{HugrView, Node};
use hugr_core::hugr::internal::HugrInternals;
use std::collections::BTreeSet;
use tket::serialize::pytket::*;
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;
use K::*;

pub fn cfg(qsys: bool) -> Cfg {
    let mut c = Cfg::new(PURE_GATES).with(&[
        (Alloc, 2), (K::Free, 1), (Reset, 1), (Meas, 4), (MeasFree, 2), (Rot, 3), (Flt, 2), (Log, 3), (TB, 5), (Tup, 2), (Untup, 2), (Noop, 1), (Barrier, 2), (Const, 2), (Dfg, 1), (Cond, 1),
        (Call, 1), (Int, 1), (Conv, 1), (Unknown, 1), (Arr, 1), (ArrOp, 1), (Order, 1), (Loop, 1), (TagOp, 1), (ResOp, 1), (Phase, 1), (TryAlloc, 1),
    ]);
    if qsys {
        c = c.with(&[(QRz, 2), (QPx, 2), (QZz, 2), (QMeas, 1), (QReset, 1), (QFree, 1), (Lazy, 3), (Fut, 3), (QMeasReset, 1), (RtBarrier, 1)]);
    }
    c.funcs = 1;
    c.ops = (0, 10);
    c.const_away = true;
    c.computed_angles = true;
    c.symbols = true;
    c.max_qubits = 5;
    c.ins.push((t_tb(), 1));
    c.ins.push((t_b(), 2));
    c.out_copy = 4;
    c
}
/// Programs that pytket expresses.
pub fn plain(qsys: bool) -> Cfg {
    let c = cfg(qsys);
    c.without(&[Dfg, Cond, Call, Int, Conv, Arr, ArrOp, Order, Loop, TagOp, ResOp, Phase, TryAlloc, Unknown, Noop, QMeasReset, RtBarrier])
}
pub fn is_bit(t: &Type, _qsys: bool) -> bool {
    *t == t_b() || *t == t_tb()
}
pub fn has_payload(s: &SerialCircuit) -> bool {
    s.commands.iter().any(|k| k.op.data.as_ref().is_some_and(|d| d.contains("\"typ\"")))
}

fn programs(c: &mut Case) -> Res {
    let qsys = c.src.flip();
    let all = c.src.flip();
    let p = program(&mut c.src, &if all { cfg(qsys) } else { plain(qsys) });
    must_validate(&p.h, "generated program");
    if !p.outs.iter().all(|t| *t == t_q() || is_bit(t, qsys)) {
        return Err(Stop::Discard("outputs without registers"));
    }
    label_feats(c, &p);
    c.describe(|| format!("qsys {qsys}\n{}", show(&p.h)));
    c.fingerprint(&(show(&p.h), qsys));
    let o = sims();
    let want = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    c.nontrivial = p.n_ops > 1;
    let mut h = p.h.clone();
    hugr::hugr::hugrmut::HugrMut::set_entrypoint(&mut h, p.main);
    let circ = Circuit::try_new(h).unwrap();
    let sc = match no_panic("encode", || SerialCircuit::encode(&circ, enc_opts(qsys)))? {
        Ok(x) => x,
        Err(e) => {
            let e = e.to_string();
            c.label(format!("refused: {}", short(&e)));
            // A circuit has no place for operations without qubits and bits.
            ensure!(all || e.starts_with("An unsupported subgraph has no qubits or bits"), format!("refused: {}", short(&e)), "{e}");
            return Ok(());
        }
    };
    let text = || serde_json::to_string(&sc).unwrap();
    check_form(&sc)?;
    let angles = p.ins.iter().filter(|t| **t == t_r() || **t == t_f()).count();
    let vars: Vec<String> = (0..angles).map(|i| format!("f{i}")).collect();
    let add = |e: Stop| match e {
        Stop::Fail { sig, detail } => Stop::Fail { sig, detail: format!("{detail}\n{}", text()) },
        e => e,
    };
    let payload = has_payload(&sc);
    c.label(if payload { "payload" } else { "no payload" });
    if !payload {
        ensure!(sc.qubits.len() >= p.outs.iter().filter(|t| **t == t_q()).count(), "missing qubits", "{}", text());
        ensure!(sc.bits.len() >= p.outs.iter().filter(|t| is_bit(t, qsys)).count(), "missing bits", "{}", text());
        let (h, n) = pt::reference(&sc, &p.ins, &p.outs, &vars);
        same_meaning("encode", &want, &h, n, &p.ins, &p.outs, &o).map_err(add)?;
    }
    let d = opts(qsys).with_signature(sig(&p.ins, &p.outs)).with_input_params(vars).with_extensions(REG.clone());
    let back = match no_panic("decode", || sc.decode(d)).map_err(add)? {
        Ok(x) => x,
        Err(e) => return fail(format!("decode: error {}", short(&e.to_string())), e.to_string()).map_err(add),
    };
    let (h, e) = (back.hugr().clone(), back.hugr().entrypoint());
    valid(&h, "decode").map_err(add)?;
    let fs = h.inner_function_type().expect("a dataflow region").into_owned();
    ensure!(fs.input_types() == &p.ins[..] && fs.output_types() == &p.outs[..], "signature", "{fs} instead of {}\n{}", sig(&p.ins, &p.outs), text());
    same_meaning("decode", &want, &h, e, &p.ins, &p.outs, &o).map_err(add)
}
/// The nodes that were there, with their operations and the edges between them.
fn old_part(h: &hugr::Hugr, ns: &BTreeSet<Node>) -> String {
    let mut t = format!("{:?}\n", h.entrypoint());
    for n in ns {
        if !h.contains_node(*n) {
            t += &format!("{n} gone\n");
            continue;
        }
        let to: Vec<_> = h.node_outputs(*n).flat_map(|p| h.linked_inputs(*n, p).map(move |x| (p, x))).filter(|x| ns.contains(&x.1 .0)).collect();
        let md: Vec<String> = h.node_metadata_map(*n).iter().map(|(k, v)| format!("{k}={v}")).collect();
        t += &format!("{n} {:?} {} {to:?} {md:?}\n", h.get_parent(*n), super::c15::op_name(h.get_optype(*n)));
    }
    t
}
/// The other ways of writing and reading: files, streams, existing programs, encoded circuits.
fn places(c: &mut Case) -> Res {
    let qsys = c.src.flip();
    let all = c.src.chance(1, 3);
    let p = program(&mut c.src, &if all { cfg(qsys) } else { plain(qsys) });
    must_validate(&p.h, "generated program");
    if !p.outs.iter().all(|t| *t == t_q() || is_bit(t, qsys)) {
        return Err(Stop::Discard("outputs without registers"));
    }
    let (write, read) = (c.src.below(4), c.src.below(6));
    c.label(["written: text", "written: stream", "written: file", "written: value"][write]);
    c.label(["read: text", "read: stream", "read: file", "read: new function", "read: region", "read: reassembled"][read]);
    let mut host = None;
    if matches!(read, 3 | 4) {
        let mut k = plain(false);
        k.ops = (0, 4);
        host = Some(program(&mut c.src, &k));
    }
    let name: Option<String> = c.src.choose(&[None, Some("other"), Some("main"), Some("a b")]).map(|x| x.to_string());
    c.describe(|| format!("qsys {qsys} write {write} read {read} name {name:?}\n{}\nhost {}", show(&p.h), host.as_ref().map(|h| show(&h.h)).unwrap_or_default()));
    c.fingerprint(&(show(&p.h), qsys, write, read));
    let o = sims();
    let want = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let mut h = p.h.clone();
    hugr::hugr::hugrmut::HugrMut::set_entrypoint(&mut h, p.main);
    let circ = Circuit::try_new(h).unwrap();
    let dir = (write == 2 || read == 2).then(super::c17::Dir::new);
    let file = dir.as_ref().map(|d| d.0.join("c.json")).unwrap_or_default();
    let text = |r: Result<String, PytketEncodeError>| r.map(|t| serde_json::from_str::<SerialCircuit>(&t).map_err(|e| format!("{e}\n{t}")));
    let sc = no_panic("encode", || match write {
        0 => text(save_tk1_json_str(&circ, enc_opts(qsys))),
        1 => {
            let mut v = vec![];
            text(save_tk1_json_writer(&circ, &mut v, enc_opts(qsys)).map(|_| String::from_utf8(v).unwrap_or_default()))
        }
        2 => text(save_tk1_json_file(&circ, &file, enc_opts(qsys)).map(|_| std::fs::read_to_string(&file).unwrap_or_default())),
        _ => SerialCircuit::encode(&circ, enc_opts(qsys)).map(Ok),
    })?;
    let sc = match sc {
        Err(e) => {
            let again = no_panic("encode", || SerialCircuit::encode(&circ, enc_opts(qsys)))?;
            ensure!(again.is_err(), "refused only by one way of writing", "{e}");
            return Err(Stop::Discard("refused"));
        }
        Ok(Err(e)) => return fail("written text cannot be parsed", e),
        Ok(Ok(x)) => x,
    };
    c.nontrivial = p.n_ops > 1;
    let json = serde_json::to_string(&sc).unwrap();
    let angles = p.ins.iter().filter(|t| **t == t_r() || **t == t_f()).count();
    let vars: Vec<String> = (0..angles).map(|i| format!("f{i}")).collect();
    let d = opts(qsys).with_signature(sig(&p.ins, &p.outs)).with_input_params(vars).with_extensions(REG.clone());
    let whole = |r: Result<Circuit, PytketDecodeError>| r.map(|c| (c.hugr().clone(), c.hugr().entrypoint()));
    let fname = name.clone().or(sc.name.clone()).unwrap_or("main".into());
    let mut named = None;
    let got = match read {
        0 => no_panic("load", || whole(load_tk1_json_str(&json, d)))?,
        1 => no_panic("load", || whole(load_tk1_json_reader(json.as_bytes(), d)))?,
        2 => {
            std::fs::write(&file, &json).unwrap();
            no_panic("load", || whole(load_tk1_json_file(&file, d)))?
        }
        3 | 4 => {
            let mut h = host.unwrap().h;
            let m = h.module_root();
            let mut frame = None;
            if read == 4 {
                let f = h.add_node_with_parent(m, hugr::ops::FuncDefn::new("frame", sig(&p.ins, &p.outs)));
                let i = h.add_node_with_parent(f, hugr::ops::Input::new(p.ins.clone()));
                let o = h.add_node_with_parent(f, hugr::ops::Output::new(p.outs.clone()));
                frame = Some((f, i, o));
            }
            let ns: BTreeSet<Node> = h.descendants(m).collect();
            let was = old_part(&h, &ns);
            let target = match frame {
                Some(f) => DecodeInsertionTarget::Region { parent: f.0 },
                None => DecodeInsertionTarget::Function { fn_name: name.clone() },
            };
            let r = no_panic("decode_inplace", || sc.decode_inplace(&mut h, target, d))?;
            if r.is_ok() {
                let now = old_part(&h, &ns);
                ensure!(now == was, "decode_inplace: the program around changed", "{was}\n{now}");
            }
            r.map(|n| match frame {
                Some((f, i, o)) => {
                    for k in 0..p.ins.len() {
                        h.connect(i, k, n, k);
                    }
                    for k in 0..p.outs.len() {
                        h.connect(n, k, o, k);
                    }
                    (h, f)
                }
                None => {
                    named = Some(fname.clone());
                    (h, n)
                }
            })
        }
        _ => {
            let enc = no_panic("EncodedCircuit::new", || EncodedCircuit::new(&circ, enc_opts(qsys)))?;
            let mut enc = match enc {
                Ok(e) => e,
                Err(e) => return fail("encoded by one way only", e.to_string()),
            };
            ensure!(enc.contains_circuit(p.main) && !enc.is_empty() && enc.len() == enc.iter().count(), "encoded circuit: regions", "{}", enc.len());
            let r = no_panic("ensure_standalone", || enc.ensure_standalone(circ.hugr()))?;
            if let Err(e) = r {
                return fail("ensure_standalone refuses what can be encoded alone", e.to_string());
            }
            if enc.len() > 1 {
                return Err(Stop::Discard("several circuits"));
            }
            let other = circ.hugr().module_root();
            ensure!(no_panic("reassemble", || enc.reassemble(other, None, opts(qsys)))?.is_err(), "reassemble: a region that was not encoded", "accepted");
            let fname = name.clone().or(enc[p.main].name.clone()).unwrap_or("main".into());
            let r = no_panic("reassemble", || enc.reassemble(p.main, name.clone(), d))?;
            r.map(|h| {
                let f = h.children(h.module_root()).find(|n| h.get_optype(*n).as_func_defn().is_some_and(|f| *f.func_name() == fname)).unwrap_or(h.module_root());
                named = Some(fname);
                (h, f)
            })
        }
    };
    let (h, e) = match got {
        Ok(x) => x,
        Err(e) => return fail(format!("decode: error {}", short(&e.to_string())), format!("{e}\n{json}")),
    };
    let add = |e: Stop| match e {
        Stop::Fail { sig, detail } => Stop::Fail { sig, detail: format!("{detail}\n{json}") },
        e => e,
    };
    if let Some(n) = &named {
        let got = h.get_optype(e).as_func_defn().map(|f| f.func_name().clone());
        ensure!(got.as_ref() == Some(n), "decode: name of the function", "{got:?} instead of {n}");
    }
    valid(&h, "decode").map_err(add)?;
    let fs = h.get_optype(e).inner_function_type().expect("a dataflow region").into_owned();
    ensure!(fs.input_types() == &p.ins[..] && fs.output_types() == &p.outs[..], "signature", "{fs} instead of {}\n{json}", sig(&p.ins, &p.outs));
    same_meaning("decode", &want, &h, e, &p.ins, &p.outs, &o).map_err(add)
}
/// Registers and parameters of a type: qubits, bits, parameters.
fn registers(t: &Type, futures: bool) -> Option<[usize; 3]> {
    if *t == t_q() {
        return Some([1, 0, 0]);
    }
    if *t == t_b() || *t == t_tb() {
        return Some([0, 1, 0]);
    }
    if *t == t_r() || *t == t_f() {
        return Some([0, 0, 1]);
    }
    if let Some(s) = t.as_sum() {
        if s.num_variants() == 0 {
            return Some([0; 3]);
        }
        if s.num_variants() != 1 {
            return None;
        }
        let mut n = [0; 3];
        for x in s.get_variant(0)?.iter() {
            let k = registers(&Type::try_from(x.clone()).ok()?, futures)?;
            (0..3).for_each(|i| n[i] += k[i]);
        }
        return (n[2] == 0).then_some(n);
    }
    let e = t.as_extension()?;
    if futures && e.name() == "Future" {
        let hugr::types::Term::Runtime(x) = e.args().first()? else { return None };
        return registers(x, futures).filter(|n| n[2] == 0 && *n != [0; 3]);
    }
    None
}
fn any_type(s: &mut crate::gen::Src, depth: usize) -> Type {
    match s.below(if depth == 0 { 9 } else { 14 }) {
        0 | 1 => t_q(),
        2 | 3 => t_b(),
        4 => t_tb(),
        5 => t_r(),
        6 => t_f(),
        7 => Type::new_unit_sum(s.below(4) as u8),
        8 => hugr::std_extensions::arithmetic::int_types::int_type(5),
        9..=11 => {
            let n = s.below(4);
            let v: Vec<Type> = (0..n).map(|_| any_type(s, depth - 1)).collect();
            t_tup(v)
        }
        12 => t_fut(any_type(s, depth - 1)),
        _ => {
            let a = any_type(s, depth - 1);
            let b = any_type(s, depth - 1);
            Type::new_sum([vec![a], vec![b]])
        }
    }
}
/// What types are made of does not depend on who asks, and on what was asked before.
fn types(c: &mut Case) -> Res {
    let qsys = c.src.flip();
    let n = c.src.range(1, 8);
    let mut v: Vec<Type> = vec![];
    for _ in 0..n {
        let d = c.src.below(4);
        let t = any_type(&mut c.src, d);
        v.push(t);
    }
    let mut asked: Vec<Type> = v.clone();
    asked.extend(v.iter().cloned());
    c.src.shuffle(&mut asked);
    c.describe(|| format!("qsys {qsys} {asked:?}"));
    c.fingerprint(&(format!("{asked:?}"), qsys));
    c.nontrivial = v.iter().any(|t| t.as_sum().is_some_and(|s| s.num_variants() == 1) && registers(t, true).is_some());
    let mut enc = if qsys { tket_qsystem::pytket::qsystem_encoder_config::<hugr::Hugr>() } else { default_encoder_config::<hugr::Hugr>() };
    let mut dec = if qsys { tket_qsystem::pytket::qsystem_decoder_config() } else { default_decoder_config() };
    let add = c.src.chance(1, 2).then(|| c.src.below(asked.len()));
    for (i, t) in asked.iter().enumerate() {
        if add == Some(i) {
            // from here on futures are known
            enc.add_type_translator(tket_qsystem::pytket::FutureEmitter);
            dec.add_type_translator(tket_qsystem::pytket::FutureEmitter);
        }
        let want = registers(t, add.is_some_and(|a| a <= i)).filter(|n| *n != [0; 3]);
        let got = [no_panic("type_to_pytket", || enc.type_to_pytket(t))?, no_panic("type_to_pytket", || dec.type_to_pytket(t))?];
        for (g, who) in got.iter().zip(["encoder", "decoder"]) {
            let g = g.as_ref().map(|g| [g.qubits, g.bits, g.params]);
            ensure!(g == want, format!("{who}: registers of a type"), "{t}: {g:?} instead of {want:?}");
        }
    }
    let bit = |t: &Type| *t == t_b() || *t == t_tb();
    for a in &v {
        for b in &v {
            let want = a == b || (bit(a) && bit(b));
            ensure!(dec.types_are_isomorphic(a, b) == want, "isomorphic types", "{a} {b}: expected {want}");
        }
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a circuit with at least two operations",
        assumptions: &["up to 5 qubits", "gates nobody knows are generic unitaries depending on their text, operands and angles"],
        suites: vec![Suite { name: "programs", quick: 60000, thorough: 2000000, run: programs }, Suite { name: "round trip", quick: 60000, thorough: 2000000, run: super::c06::round_trip }, Suite { name: "places", quick: 30000, thorough: 1000000, run: places }, Suite { name: "types", quick: 10000, thorough: 100000, run: types }],
        hang_violation: None,
    }
}
