//! C06: pytket circuits through HUGR.
use super::common::*;
use crate::ensure;
use crate::expr;
use crate::gen::Src;
use crate::hb::*;
use crate::interp::*;
use crate::pytket as pt;
use crate::run::*;
use hugr::types::{Signature, Type};
use hugr::{Hugr, HugrView, Node};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, TKETDecode};
use tket_json_rs::circuit_json::SerialCircuit;
use tket_qsystem::pytket::{qsystem_decoder_config, qsystem_encoder_config};

pub const SYMS: &[&str] = &["alpha", "beta", "c_1"];
pub fn decl(src: &mut Src, k: usize, names: &[&str]) -> Vec<J> {
    let mut v: Vec<(&str, i64)> = vec![];
    let plain = src.chance(1, 2);
    for i in 0..k {
        let x = loop {
            let x = if plain { (names[0], i as i64) } else { (*src.pick(names), src.irange(0, 5)) };
            if !v.contains(&x) {
                break x;
            }
        };
        v.push(x);
    }
    v.iter().map(|(n, i)| json!([n, [i]])).collect()
}
pub fn angle(src: &mut Src, syms: bool) -> String {
    match src.below(if syms { 8 } else { 4 }) {
        0 => format!("{}", src.irange(-8, 8) as f64 / 4.0),
        1 => format!("{}", src.irange(1, 799) as f64 / 100.0),
        2 => format!("{}/{}", src.range(1, 7), src.range(2, 9)),
        3 => "1.5 - 0.25".into(),
        4 | 5 => src.pick(SYMS).to_string(),
        6 => format!("{} + {}*{}", src.pick(SYMS), src.range(2, 4), src.pick(SYMS)),
        _ => format!("-{}/2", src.pick(SYMS)),
    }
}
/// One operation on at most the given operands: its JSON and how many qubits and bits it takes, bits first or not.
pub struct Op {
    pub j: J,
    pub q: usize,
    pub b: usize,
    pub bits_first: bool,
}
fn bools(src: &mut Src, n: usize) -> Vec<bool> {
    (0..n).map(|_| src.flip()).collect()
}
fn clop(src: &mut Src, d: usize, vars: usize) -> J {
    let name = if vars == 0 { src.choose(&["BitZero", "BitOne"]) } else { src.choose(&["BitAnd", "BitOr", "BitXor", "BitEq", "BitNot", "BitNeq", "BitAnd", "BitXor"]) };
    let k = match name {
        "BitZero" | "BitOne" => 0,
        "BitNot" => 1,
        _ => 2,
    };
    let plain = src.chance(1, 2);
    let args: Vec<J> = (0..k)
        .map(|i| match if plain { 9 } else { src.below(10) } {
            0 => json!({"type": "term", "input": {"type": "int", "term": src.below(2)}}),
            1 | 2 if d > 0 => json!({"type": "expr", "input": clop(src, d - 1, vars)}),
            _ => {
                let v = if src.chance(1, 4) { src.below(vars) } else { i % vars };
                json!({"type": "term", "input": {"type": "var", "term": {"type": "bit", "var": {"index": v}}}})
            }
        })
        .collect();
    json!({"op": name, "args": args})
}
const UNKNOWN: &[(&str, usize, usize)] = &[("U1", 1, 1), ("U2", 2, 1), ("U3", 3, 1), ("TK1", 3, 1), ("TK2", 3, 2), ("SX", 0, 1), ("CU1", 1, 2), ("ISWAP", 1, 2), ("XXPhase", 1, 2), ("CSWAP", 0, 3), ("ECR", 0, 2), ("CH", 0, 2), ("CV", 0, 2), ("PhasedISWAP", 2, 2), ("BRIDGE", 0, 3), ("SWAP", 0, 2), ("CnX", 0, 3)];
const KNOWN: &[(&str, usize, usize)] = &[
    ("H", 0, 1), ("CX", 0, 2), ("CY", 0, 2), ("CZ", 0, 2), ("CRz", 1, 2), ("T", 0, 1), ("Tdg", 0, 1), ("S", 0, 1), ("Sdg", 0, 1), ("V", 0, 1), ("Vdg", 0, 1), ("X", 0, 1),
    ("Y", 0, 1), ("Z", 0, 1), ("Rx", 1, 1), ("Ry", 1, 1), ("Rz", 1, 1), ("CCX", 0, 3), ("PhasedX", 2, 1), ("ZZPhase", 1, 2), ("ZZMax", 0, 2), ("noop", 0, 1),
];
pub fn op(src: &mut Src, d: usize, nq: usize, nb: usize, syms: bool, feats: &mut Vec<&'static str>) -> Op {
    loop {
        let mut bits_first = false;
        let (mut j, q, b) = match src.weighted(&[8, 3, 1, 2, 1, 1, 4, 2, 2, 1, 1, 1, 1]) {
            k @ (0 | 1) => {
                let (n, p, q) = src.choose(if k == 0 { KNOWN } else { UNKNOWN });
                if k == 1 {
                    feats.push("unknown gate");
                }
                let mut j = json!({"type": n});
                if p > 0 {
                    j["params"] = json!((0..p).map(|_| angle(src, syms)).collect::<Vec<_>>());
                }
                if n == "CnX" || src.chance(1, 10) {
                    j["n_qb"] = json!(q);
                }
                (j, q, 0)
            }
            2 => (json!({"type": "Reset"}), 1, 0),
            3 => (json!({"type": "Measure"}), 1, 1),
            4 => {
                let (q, b) = (src.below(nq + 1), src.below(nb + 1));
                feats.push("barrier");
                let mut j = json!({"type": "Barrier"});
                if src.flip() {
                    j["data"] = json!(src.choose(&["", "mid", "{}", "a \"b\""]));
                }
                bits_first = src.chance(1, 4);
                (j, q, b)
            }
            5 => (json!({"type": "Phase", "params": [angle(src, syms)]}), 0, 0),
            6 => {
                // expression on bits
                if nb == 0 {
                    continue;
                }
                let b = src.range(1, nb.min(4));
                let plain = src.chance(1, 3);
                let out = if plain { b - 1 } else { src.below(b) };
                let mut vars: Vec<usize> = if plain { (0..b - 1).collect() } else { (0..b).filter(|_| src.chance(3, 4)).collect() };
                if !plain && src.flip() {
                    src.shuffle(&mut vars);
                }
                let e = clop(src, 2, vars.len());
                let posn: Vec<J> = vars.iter().enumerate().map(|(v, p)| json!([v, p])).collect();
                feats.push(if plain { "plain expression" } else { "expression" });
                (json!({"type": "ClExpr", "expr": {"bit_posn": posn, "expr": e, "reg_posn": [], "output_posn": [out]}}), 0, b)
            }
            7 => {
                if d == 0 || nb == 0 {
                    continue;
                }
                let w = src.range(1, nb.min(2));
                let inner = op(src, d - 1, nq, nb - w, false, feats);
                if inner.bits_first && inner.q > 0 {
                    continue;
                }
                feats.push("conditional");
                let inner = if inner.j["cond"].is_object() { Op { j: inner.j["cond"].clone(), ..inner } } else { inner };
                // the condition comes first, then what the operation takes
                let mut j = json!({"type": "Conditional", "conditional": {"op": inner.j, "width": w, "value": src.below(1 << w)}});
                let sg: Vec<&str> = std::iter::repeat_n("B", w).chain(std::iter::repeat_n("Q", inner.q)).chain(std::iter::repeat_n("C", inner.b)).collect();
                if src.chance(1, 8) {
                    j["signature"] = json!(sg.iter().map(|s| if *s == "B" { "C" } else { s }).collect::<Vec<_>>());
                }
                return Op { j: json!({"w": w, "cond": j}), q: inner.q, b: w + inner.b, bits_first: true };
            }
            8 => {
                if d == 0 || nq + nb == 0 {
                    continue;
                }
                let (q, b) = (src.below(nq + 1), src.below(nb.min(2) + 1));
                let n = src.below(4);
                let c = circuit(src, d - 1, q, b, n, syms, feats);
                feats.push("box");
                (json!({"type": "CircBox", "box": {"type": "CircBox", "id": "0c91a7c5-1b8e-4c2e-9a55-3b1c2c7f1a01", "circuit": c}}), q, b)
            }
            9 => {
                let b = src.range(1, 3);
                (json!({"type": "SetBits", "classical": {"values": bools(src, b)}}), 0, b)
            }
            10 => {
                let k = src.range(1, 2);
                (json!({"type": "CopyBits", "classical": {"n_i": k}}), 0, 2 * k)
            }
            11 => {
                feats.push("other classical");
                match src.below(3) {
                    0 => (json!({"type": "RangePredicate", "classical": {"n_i": 2, "lower": 1, "upper": 2}}), 0, 3),
                    1 => (json!({"type": "ExplicitPredicate", "classical": {"n_i": 2, "name": "AND", "values": bools(src, 4)}}), 0, 3),
                    _ => (json!({"type": "ClassicalTransform", "classical": {"n_io": 2, "name": "CX", "values": [0, 1, 3, 2]}}), 0, 2),
                }
            }
            _ => {
                // a register expression
                feats.push("register expression");
                let reg = |i: usize| json!({"type": "term", "input": {"type": "var", "term": {"type": "reg", "var": {"index": i}}}});
                (json!({"type": "ClExpr", "expr": {"bit_posn": [], "expr": {"op": src.choose(&["RegAdd", "RegXor", "RegAnd"]), "args": [reg(0), reg(1)]}, "reg_posn": [[0, [0, 1]], [1, [2]]], "output_posn": [0, 1]}}), 0, 3)
            }
        };
        if q > nq || b > nb {
            continue;
        }
        if src.chance(1, 10) {
            let sg: Vec<&str> = if bits_first {
                std::iter::repeat_n("C", b).chain(std::iter::repeat_n("Q", q)).collect()
            } else {
                std::iter::repeat_n("Q", q).chain(std::iter::repeat_n("C", b)).collect()
            };
            j["signature"] = json!(sg);
        }
        return Op { j, q, b, bits_first };
    }
}
/// A circuit.
pub fn circuit(src: &mut Src, d: usize, nq: usize, nb: usize, n: usize, syms: bool, feats: &mut Vec<&'static str>) -> J {
    let q = decl(src, nq, &["q", "a", "node", "q_1"]);
    let b = decl(src, nb, &["c", "d", "flag"]);
    let mut cmds = vec![];
    for _ in 0..n {
        if nq + nb == 0 {
            break;
        }
        let o = op(src, d, nq, nb, syms, feats);
        let (mut qs, mut bs) = (q.clone(), b.clone());
        let qa: Vec<J> = (0..o.q).map(|_| src.take(&mut qs)).collect();
        let ba: Vec<J> = (0..o.b).map(|_| src.take(&mut bs)).collect();
        let (j, args): (J, Vec<J>) = if let Some(w) = o.j.get("w") {
            let w = w.as_u64().unwrap() as usize;
            (o.j["cond"].clone(), ba[..w].iter().chain(&qa).chain(&ba[w..]).cloned().collect())
        } else if o.bits_first {
            (o.j, ba.into_iter().chain(qa).collect())
        } else {
            (o.j, qa.into_iter().chain(ba).collect())
        };
        let mut c = json!({"op": j, "args": args});
        if src.chance(1, 6) {
            c["opgroup"] = json!(src.choose(&["g", "group 2"]));
        }
        cmds.push(c);
    }
    let mut perm = vec![];
    if src.chance(1, 2) {
        let mut to = q.clone();
        if src.flip() {
            src.shuffle(&mut to);
        }
        for (x, y) in q.iter().zip(&to) {
            if x != y || src.flip() {
                perm.push(json!([x, y]));
            }
        }
        if perm.len() < q.len() {
            feats.push("partial permutation");
        }
        if q != to {
            feats.push("permutation");
        }
        if src.flip() {
            src.shuffle(&mut perm);
        }
    }
    let mut c = json!({"phase": if src.chance(1, 3) { angle(src, syms) } else { "0.0".into() }, "commands": cmds, "qubits": q, "bits": b, "implicit_permutation": perm});
    if src.flip() {
        c["name"] = json!(src.choose(&["circ", "main", "a b", "", "é"]));
    }
    c
}
pub fn opts(qsys: bool) -> DecodeOptions {
    match qsys {
        true => DecodeOptions::new().with_config(qsystem_decoder_config()),
        false => DecodeOptions::new(),
    }
}
pub fn enc_opts(qsys: bool) -> EncodeOptions<Hugr> {
    match qsys {
        true => EncodeOptions::new().with_config(qsystem_encoder_config()),
        false => EncodeOptions::new(),
    }
}
pub fn params_of(h: &Hugr, n: Node) -> Vec<String> {
    h.get_metadata(n, "TKET1.input_parameters").map(|m| serde_json::from_value(m.clone()).unwrap()).unwrap_or_default()
}
fn is_angle(t: &Type) -> bool {
    *t == t_r() || *t == t_f()
}
pub fn sims() -> SimOpts {
    SimOpts { max_qubits: 8, max_angle: 1e5, ..SimOpts::default() }
}
/// The value of a phase.
fn phase(s: &str) -> Option<f64> {
    if s.is_empty() {
        return Some(0.0);
    }
    let e = expr::parse(s)?;
    let mut vs = vec![];
    expr::vars(&e, &mut vs);
    let env: HashMap<String, f64> = vs.into_iter().enumerate().map(|(i, v)| (v.clone(), 0.37 + i as f64 * 0.21 + (crate::run::hash(&v) % 100) as f64 / 77.0)).collect();
    expr::eval_str(s, &env)
}
/// Operation with what may be rewritten taken out.
fn bare(o: &J) -> J {
    let mut o = o.clone();
    if let Some(m) = o.as_object_mut() {
        m.remove("signature");
        m.remove("n_qb");
        if let Some(p) = m.get_mut("params") {
            *p = json!(p.as_array().map_or(0, |p| p.len()));
        }
        if m.get("data") == Some(&json!("")) {
            m.remove("data");
        }
        // ZZMax is a ZZPhase on the native gate set.
        if m.get("type") == Some(&json!("ZZMax")) {
            m.insert("type".into(), json!("ZZPhase"));
            m.insert("params".into(), json!(1));
        }
    }
    o
}

fn decode(c: &mut Case) -> Res {
    circuits(c, false)
}
pub fn round_trip(c: &mut Case) -> Res {
    circuits(c, true)
}
fn circuits(c: &mut Case, back: bool) -> Res {
    let s = &mut c.src;
    let (nq, nb) = (s.weighted(&[1, 3, 4, 4, 2]), s.weighted(&[2, 3, 4, 4, 2]));
    let n = s.below(9);
    let syms = s.flip();
    let mut feats = vec![];
    let depth = if back && !s.chance(1, 8) { 0 } else { 2 };
    let j = circuit(s, depth, nq, nb, n, syms, &mut feats);
    let qsys = s.flip();
    let sc: SerialCircuit = serde_json::from_value(j.clone()).unwrap_or_else(|e| panic!("bad circuit: {e}\n{j}"));
    let syms = pt::symbols(&sc);
    // options
    let mut d = opts(qsys);
    let mut given: Option<Signature> = None;
    let mut named: Vec<String> = vec![];
    if s.chance(1, 3) {
        let k = s.below(4);
        for _ in 0..k {
            let n = if s.chance(2, 3) { s.pick(SYMS).to_string() } else { s.choose(&["other", "z"]).to_string() };
            if !named.contains(&n) {
                named.push(n);
            }
        }
        d = d.with_input_params(named.clone());
        feats.push("input parameters");
    }
    if !back && s.chance(1, 2) {
        let (iq, ib) = (s.below(nq + 1), s.below(nb + 2));
        let (oq, ob) = (s.below(nq + 1), s.below(nb + 1));
        let ia = s.below(3);
        let mut mk = |q: usize, b: usize, a: usize| -> Vec<Type> {
            let mut v: Vec<Type> = vec![t_q(); q];
            v.extend((0..b).map(|_| if s.flip() { t_b() } else { t_tb() }));
            v.extend((0..a).map(|_| if s.flip() { t_r() } else { t_f() }));
            if s.flip() {
                s.shuffle(&mut v);
            }
            v
        };
        let i = mk(iq, ib, ia);
        let o = mk(oq, ob, 0);
        given = Some(sig(&i, &o));
        d = d.with_signature(given.clone().unwrap());
        feats.push("signature");
    }
    c.describe(|| format!("qsys {qsys} params {named:?} sig {given:?}\n{}", serde_json::to_string(&j).unwrap()));
    c.fingerprint(&(j.to_string(), qsys, &named, format!("{given:?}")));
    for f in &feats {
        c.label(*f);
    }
    let circ = match no_panic("decode", || sc.decode(d))? {
        Ok(x) => x,
        Err(e) => return fail(format!("decode: error {}", short(&e.to_string())), format!("{e}")),
    };
    let h = circ.hugr().clone();
    valid(&h, "decode")?;
    let e = h.entrypoint();
    let fs = h.inner_function_type().expect("a dataflow region").into_owned();
    let (ins, outs): (Vec<Type>, Vec<Type>) = (fs.input_types().to_vec(), fs.output_types().to_vec());
    // signature
    let mut vars = params_of(&h, e);
    let base = match &given {
        Some(g) => g.clone(),
        None => {
            let t: Vec<Type> = [vec![t_q(); nq], vec![t_b(); nb]].concat();
            sig(&t, &t)
        }
    };
    ensure!(outs == base.output_types(), "signature", "outputs {outs:?}");
    ensure!(ins.len() >= base.input_count() && ins[..base.input_count()] == base.input_types()[..] && ins[base.input_count()..].iter().all(|t| *t == t_r()), "signature", "inputs {ins:?}");
    let n_angles = ins.iter().filter(|t| is_angle(t)).count();
    ensure!(vars.len() <= n_angles, "parameters", "{vars:?} for {n_angles} angles");
    ensure!(vars.starts_with(&named), "parameters", "{vars:?} with {named:?} given");
    let mut want: Vec<String> = named.clone();
    want.extend(syms.iter().filter(|s| !named.contains(s)).cloned());
    let (mut v1, mut v2) = (vars.clone(), want.clone());
    v1.sort();
    v2.sort();
    ensure!(v1 == v2, "parameters", "{vars:?} instead of {want:?}");
    let given_angles = base.input_types().iter().filter(|t| is_angle(t)).count();
    ensure!(n_angles == given_angles.max(vars.len()), "parameters", "{n_angles} angles for {vars:?}");
    while vars.len() < n_angles {
        vars.push(format!("_{}", vars.len()));
    }
    // meaning
    let o = sims();
    let (rh, rn) = pt::reference(&sc, &ins, &outs, &vars);
    let want = sim_before(&rh, rn, &ins, &outs, &o)?;
    c.nontrivial = j["commands"].as_array().unwrap().len() > 1;
    same_meaning("decode", &want, &h, e, &ins, &outs, &o)?;
    // and back
    if !back {
        return Ok(());
    }
    let again = match no_panic("encode", || SerialCircuit::encode(&circ, enc_opts(qsys)))? {
        Ok(x) => x,
        // Decoded boxes are regions, which cannot be part of a standalone circuit.
        Err(e) if feats.contains(&"box") && ["nested structure", "no qubits or bits"].iter().any(|w| e.to_string().contains(w)) => {
            c.label("box refused");
            return Ok(());
        }
        // Nor can operations without operands.
        Err(e) if e.to_string().contains("no qubits or bits") && sc.commands.iter().any(|k| k.args.is_empty()) => return Ok(()),
        Err(e) => return fail(format!("encode: error {}", short(&e.to_string())), format!("{e}")),
    };
    let back = || serde_json::to_string(&again).unwrap();
    // what pytket reads
    check_form(&again)?;
    let name = |s: &SerialCircuit| s.name.clone().unwrap_or_default();
    ensure!(name(&again) == name(&sc), "name", "{:?} becomes {:?}", sc.name, again.name);
    ensure!(again.qubits.starts_with(&sc.qubits), "qubits", "{}", back());
    ensure!(again.bits.starts_with(&sc.bits), "bits", "{}", back());
    let (p, p2) = (phase(&sc.phase), phase(&again.phase));
    ensure!(p.is_some() && p2.is_some_and(|x| (x - p.unwrap()).abs() < 1e-9), "phase", "{} becomes {}", sc.phase, again.phase);
    let payload = again.commands.iter().any(|k| k.op.data.as_ref().is_some_and(|d| d.contains("\"typ\"")));
    if payload {
        c.label("payload");
    }
    // same operations along every qubit
    let seq = |s: &SerialCircuit| -> BTreeMap<String, Vec<String>> {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for k in &s.commands {
            let on: Vec<_> = k.args.iter().filter(|a| s.qubits.iter().any(|q| q.id == **a)).collect();
            for (i, a) in on.iter().enumerate() {
                m.entry(a.to_string()).or_default().push(format!("{} arg {i} of {:?}", bare(&json!(k.op)), on.iter().map(|a| a.to_string()).collect::<Vec<_>>()));
            }
        }
        m
    };
    let plain = |s: &SerialCircuit| s.commands.iter().all(|k| !["ClExpr", "CircBox"].contains(&json!(k.op)["type"].as_str().unwrap()));
    if plain(&sc) && !payload {
        let (a, b) = (seq(&sc), seq(&again));
        for (q, v) in &a {
            let w = b.get(q).cloned().unwrap_or_default();
            ensure!(*v == w, "operations", "on {q}: {v:#?}\nbecome {w:#?}\n{}", back());
        }
        c.label("operations compared");
        let groups = |s: &SerialCircuit| -> Vec<String> {
            let mut v: Vec<String> = s.commands.iter().filter(|k| UNKNOWN.iter().any(|u| json!(k.op)["type"] == u.0) || k.op.conditional.is_some()).filter_map(|k| Some(format!("{} {:?}", k.opgroup.clone()?, json!(k.op)["type"]))).collect();
            v.sort();
            v
        };
        ensure!(groups(&sc) == groups(&again), "operation groups", "{:?} become {:?}", groups(&sc), groups(&again));
    }
    let (h2, e2) = if payload {
        let d = opts(qsys).with_signature(sig(&ins, &outs)).with_input_params(vars.clone());
        let x = match no_panic("decode again", || again.decode(d))? {
            Ok(x) => x,
            Err(e) => return fail(format!("decode again: error {}", short(&e.to_string())), format!("{e}\n{}", back())),
        };
        let h = x.hugr().clone();
        let e = h.entrypoint();
        valid(&h, "decode again")?;
        (h, e)
    } else {
        pt::reference(&again, &ins, &outs, &vars)
    };
    same_meaning("encode", &want, &h2, e2, &ins, &outs, &o).map_err(|e| match e {
        Stop::Fail { sig, detail } => Stop::Fail { sig, detail: format!("{detail}\n{}", back()) },
        e => e,
    })
}
pub fn short(s: &str) -> String {
    let s: String = s.chars().map(|c| if c == '`' { '\'' } else { c }).filter(|c| !c.is_ascii_digit()).collect();
    s.split_whitespace().take(7).collect::<Vec<_>>().join(" ").chars().take(60).collect()
}
/// What every written circuit satisfies.
pub fn check_form(s: &SerialCircuit) -> Res {
    let show = || serde_json::to_string(s).unwrap();
    let mut seen = std::collections::HashSet::new();
    for r in s.qubits.iter().map(|q| &q.id).chain(s.bits.iter().map(|b| &b.id)) {
        ensure!(seen.insert(r.clone()), "register twice", "{r}\n{}", show());
    }
    for k in &s.commands {
        let mut here = std::collections::HashSet::new();
        for a in &k.args {
            ensure!(seen.contains(a), "undeclared register", "{a}\n{}", show());
            ensure!(here.insert(a.clone()), "operand twice", "{a} in {}\n{}", json!(k), show());
        }
        if let Some(sg) = &k.op.signature {
            ensure!(sg.len() == k.args.len(), "operand count", "{}", json!(k));
            for (t, a) in sg.iter().zip(&k.args) {
                let q = s.qubits.iter().any(|q| q.id == *a);
                ensure!(q == (t == "Q"), "operand kind", "{}", json!(k));
            }
        }
    }
    let (mut from, mut to) = (std::collections::HashSet::new(), std::collections::HashSet::new());
    for p in &s.implicit_permutation {
        ensure!(s.qubits.contains(&p.0) && s.qubits.contains(&p.1), "permutation", "{}", show());
        ensure!(from.insert(p.0.clone()) && to.insert(p.1.clone()), "permutation", "{}", show());
    }
    ensure!(from == to, "permutation", "{}", show());
    Ok(())
}
/// All places below `j`, as paths.
fn places(j: &J, at: String, out: &mut Vec<String>) {
    match j {
        J::Object(m) => m.iter().for_each(|(k, v)| {
            out.push(format!("{at}/{k}"));
            places(v, format!("{at}/{k}"), out);
        }),
        J::Array(a) => a.iter().enumerate().for_each(|(i, v)| {
            out.push(format!("{at}/{i}"));
            places(v, format!("{at}/{i}"), out);
        }),
        _ => {}
    }
}
/// Circuits that are not quite right: refused, or decoded to something valid that means what is written.
fn malformed(c: &mut Case) -> Res {
    let s = &mut c.src;
    let (nq, nb) = (s.weighted(&[1, 3, 4, 4, 2]), s.weighted(&[2, 3, 4, 4]));
    let n = s.range(1, 6);
    let syms = s.chance(1, 3);
    let mut feats = vec![];
    let mut j = circuit(s, 1, nq, nb, n, syms, &mut feats);
    let qsys = s.flip();
    let ncmd = j["commands"].as_array().unwrap().len();
    let mut must = false; // has to be refused
    let mut may_differ = false; // has no meaning
    let mut given: Option<Signature> = None;
    let mut names: Vec<String> = vec![];
    let mut kinds: Vec<&'static str> = vec![];
    for _ in 0..s.weighted(&[0, 6, 2]) {
        let k = if ncmd > 0 { Some(s.below(ncmd)) } else { None };
        let native = |j: &J, k: usize| -> bool {
            let t = j["commands"][k]["op"]["type"].as_str().unwrap_or("");
            j["commands"][k]["op"].get("conditional").is_none() && ["H", "X", "Y", "Z", "S", "T", "CX", "CY", "CZ", "Rx", "Ry", "Rz", "CRz", "CCX", "Measure", "Reset", "V"].contains(&t)
        };
        match (s.below(12), k) {
            (0, Some(k)) => {
                let a = j["commands"][k]["args"].as_array_mut().unwrap();
                if a.is_empty() {
                    continue;
                }
                let i = s.below(a.len());
                a[i] = if s.flip() { json!(["nowhere", [0]]) } else { json!([a[i][0], [77]]) };
                must = true;
                kinds.push("unknown register");
            }
            (1, Some(k)) => {
                let nat = native(&j, k);
                let a = j["commands"][k]["args"].as_array_mut().unwrap();
                if a.is_empty() {
                    continue;
                }
                let i = s.below(a.len());
                a.remove(i);
                must |= nat;
                may_differ = true;
                kinds.push("missing operand");
            }
            (2, Some(k)) => {
                let q = j["qubits"].as_array().unwrap().clone();
                let b = j["bits"].as_array().unwrap().clone();
                let all: Vec<J> = q.into_iter().chain(b).filter(|x| !j["commands"][k]["args"].as_array().unwrap().contains(x)).collect();
                if all.is_empty() {
                    continue;
                }
                let x = s.pick(&all).clone();
                let a = j["commands"][k]["args"].as_array_mut().unwrap();
                let i = s.below(a.len() + 1);
                a.insert(i, x);
                may_differ = true;
                kinds.push("extra operand");
            }
            (3, Some(k)) => {
                let q = j["qubits"].as_array().unwrap().clone();
                let mine: Vec<usize> = (0..j["commands"][k]["args"].as_array().unwrap().len()).filter(|i| q.contains(&j["commands"][k]["args"][i])).collect();
                if mine.is_empty() {
                    continue;
                }
                let a = j["commands"][k]["args"].as_array_mut().unwrap();
                let x = a[*s.pick(&mine)].clone();
                if mine.len() > 1 && s.flip() {
                    for i in &mine {
                        a[*i] = x.clone();
                    }
                } else {
                    a.push(x);
                }
                must = true;
                kinds.push("a qubit twice");
            }
            (4, Some(k)) => {
                let Some(p) = j["commands"][k]["op"].get_mut("params").and_then(|p| p.as_array_mut()) else { continue };
                if !p.is_empty() && s.flip() {
                    let i = s.below(p.len());
                    p.remove(i);
                } else {
                    p.push(json!("0.25"));
                }
                may_differ = true;
                kinds.push("parameter count");
            }
            (5, Some(k)) => {
                let p = s.choose(&["", "(", "alpha +", "1/0", "nan", "1e999", "sin()", "sin(1,2)", "a b", "\u{3b1}", "inf", "-", "[1]", "0x10", "alpha(beta)", "1e-999", "--1", "a'b", "1..2"]);
                match j["commands"][k]["op"].get_mut("params").and_then(|p| p.as_array_mut()) {
                    Some(v) if !v.is_empty() => {
                        let i = s.below(v.len());
                        v[i] = json!(p);
                    }
                    _ => j["phase"] = json!(p),
                }
                may_differ = true;
                kinds.push("odd angle");
            }
            (6, _) => {
                let q = j["qubits"].as_array().unwrap().clone();
                if q.is_empty() {
                    continue;
                }
                let p = j["implicit_permutation"].as_array_mut().unwrap();
                let (x, y) = (s.pick(&q).clone(), s.pick(&q).clone());
                match s.below(3) {
                    0 => p.push(json!([x, ["nowhere", [0]]])),
                    1 => p.push(json!([["nowhere", [0]], x])),
                    _ => {
                        let Some(z) = q.iter().find(|z| **z != x).cloned() else { continue };
                        p.retain(|e| e[0] != x && e[1] != y);
                        p.retain(|e| e[0] != z);
                        p.push(json!([x, y]));
                        p.push(json!([z, y]));
                    }
                }
                must = true;
                kinds.push("no permutation");
            }
            (7, _) => {
                let f = s.choose(&["qubits", "bits"]);
                let v = j[f].as_array_mut().unwrap();
                if v.is_empty() {
                    continue;
                }
                let x = s.pick(v).clone();
                if s.flip() {
                    v.push(x);
                    kinds.push("register twice");
                } else {
                    v.push(json!([x[0], [0, 1]]));
                    kinds.push("two indices");
                }
                may_differ = true;
            }
            (8, Some(k)) => {
                if j["commands"][k]["op"]["type"] != "ClExpr" {
                    continue;
                }
                let e = &mut j["commands"][k]["op"]["expr"];
                match s.below(4) {
                    0 => e["output_posn"] = json!([s.below(6), s.below(6)]),
                    1 => e["bit_posn"] = json!([[0, s.below(9)], [s.below(3), 1]]),
                    2 => e["reg_posn"] = json!([[0, [0, s.below(9)]]]),
                    _ => e["expr"]["args"] = json!([]),
                }
                may_differ = true;
                kinds.push("damaged expression");
            }
            (9, _) => {
                let t = [t_q(), t_b(), t_tb(), t_r(), t_f(), t_i(6), hugr::extension::prelude::usize_t(), Type::UNIT, Type::new_tuple(vec![t_q(), t_b()]), Type::new_tuple(vec![t_f()])];
                let (a, b) = (s.below(4), s.below(4));
                let i: Vec<Type> = (0..a).map(|_| s.pick(&t).clone()).collect();
                let o: Vec<Type> = (0..b).map(|_| s.pick(&t).clone()).collect();
                given = Some(sig(&i, &o));
                may_differ = true;
                kinds.push("odd signature");
            }
            (10, _) => {
                names = (0..s.range(1, 4)).map(|_| s.choose(&["alpha", "beta", "alpha", "a b", "", "1", "pi"]).to_string()).collect();
                may_differ = true;
                kinds.push("odd parameter names");
            }
            _ => {
                let mut all = vec![];
                places(&j, String::new(), &mut all);
                if all.is_empty() {
                    continue;
                }
                let (x, y) = (s.pick(&all).clone(), s.pick(&all).clone());
                let v = match s.below(6) {
                    0 => J::Null,
                    1 => json!(s.irange(-3, 9)),
                    2 => json!(s.choose(&["", "q", "H", "CX", "Barrier", "\u{e9}"])),
                    3 => json!([]),
                    4 => json!(u64::MAX),
                    _ => j.pointer(&y).unwrap().clone(),
                };
                *j.pointer_mut(&x).unwrap() = v;
                may_differ = true;
                kinds.push("damaged field");
                break;
            }
        }
    }
    if kinds.is_empty() {
        return Err(Stop::Discard("nothing to damage"));
    }
    if kinds.len() > 1 {
        must = false; // the second change may undo the first
        may_differ = true;
    }
    c.describe(|| format!("qsys {qsys} {kinds:?} params {names:?} sig {given:?}\n{}", serde_json::to_string(&j).unwrap()));
    c.fingerprint(&(j.to_string(), qsys, &names, format!("{given:?}")));
    for f in &kinds {
        c.label(*f);
    }
    let sc: SerialCircuit = match serde_json::from_value(j.clone()) {
        Ok(x) => x,
        Err(_) => {
            c.label("not read");
            return Ok(());
        }
    };
    c.nontrivial = true;
    let mut d = opts(qsys);
    if let Some(g) = given {
        d = d.with_signature(g);
    }
    if !names.is_empty() {
        d = d.with_input_params(names);
    }
    let circ = match no_panic("decode", || sc.decode(d))? {
        Ok(x) => x,
        Err(e) => {
            c.label("refused");
            let t = e.to_string();
            ensure!(!t.is_empty(), "no message", "");
            return Ok(());
        }
    };
    c.label("accepted");
    let h = circ.hugr().clone();
    valid(&h, "decode")?;
    ensure!(!must, format!("accepted: {}", kinds[0]), "{}", show(&h));
    if may_differ {
        return Ok(());
    }
    let e = h.entrypoint();
    let fs = h.inner_function_type().expect("a dataflow region").into_owned();
    let (ins, outs): (Vec<Type>, Vec<Type>) = (fs.input_types().to_vec(), fs.output_types().to_vec());
    let o = sims();
    let (rh, rn) = pt::reference(&sc, &ins, &outs, &params_of(&h, e));
    let want = sim_before(&rh, rn, &ins, &outs, &o)?;
    same_meaning("decode", &want, &h, e, &ins, &outs, &o)
}
pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "a circuit with at least two commands",
        assumptions: &["circuits up to 4 qubits and 4 bits", "gates nobody knows are generic unitaries depending on their text, operands and angles"],
        suites: vec![Suite { name: "decode", quick: 120000, thorough: 3000000, run: decode }, Suite { name: "malformed", quick: 150000, thorough: 3000000, run: malformed }],
        hang_violation: None,
    }
}
