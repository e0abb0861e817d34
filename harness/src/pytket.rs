//! What pytket circuits do, independently of the code under test.
use crate::expr;
use crate::gen::Rng;
use crate::hb::*;
use crate::interp::*;
use crate::qstate::{self as qs, Mat, C};
use crate::run::hash;
use hugr::hugr::hugrmut::HugrMut;
use hugr::types::{Type, TypeArg};
use hugr::{Hugr, HugrView, Node};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI};
use tket_json_rs::circuit_json::SerialCircuit;

/// Operand of a command: a qubit, or the position of a bit in the list of bit values.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arg {
    Q(usize),
    B(usize),
}
pub struct Names<'a> {
    vars: &'a HashMap<String, f64>,
    /// Symbols inside a condition are not known to anyone else: names.
    anon: bool,
}
impl Names<'_> {
    fn value(&self, s: &str) -> R<f64> {
        let Some(e) = expr::parse(s) else { return Ok((hash(s) % 4000) as f64 / 1000.0) };
        let mut env = HashMap::new();
        let mut vs = vec![];
        expr::vars(&e, &mut vs);
        for v in vs {
            let x = match self.vars.get(&v) {
                Some(x) if !self.anon => *x,
                _ => (hash(&("anon", &v)) % 4000) as f64 / 1000.0,
            };
            env.insert(v, x);
        }
        expr::eval_str(s, &env).map_or_else(|| unsup(format!("parameter {s}")), Ok)
    }
}

/// Gates with the angle in half-turns.
pub fn gate(name: &str, p: &[f64]) -> Option<(Mat, usize)> {
    let a = |i: usize| p.get(i).copied().unwrap_or(f64::NAN) * PI;
    Some(match (name, p.len()) {
        ("H", 0) => (qs::h(), 1),
        ("X", 0) => (qs::x(), 1),
        ("Y", 0) => (qs::y(), 1),
        ("Z", 0) => (qs::z(), 1),
        ("S", 0) => (qs::u1(FRAC_PI_2), 1),
        ("Sdg", 0) => (qs::u1(-FRAC_PI_2), 1),
        ("T", 0) => (qs::u1(FRAC_PI_4), 1),
        ("Tdg", 0) => (qs::u1(-FRAC_PI_4), 1),
        ("V", 0) => (qs::rx(FRAC_PI_2), 1),
        ("Vdg", 0) => (qs::rx(-FRAC_PI_2), 1),
        ("Rx", 1) => (qs::rx(a(0)), 1),
        ("Ry", 1) => (qs::ry(a(0)), 1),
        ("Rz", 1) => (qs::rz(a(0)), 1),
        ("PhasedX", 2) => (qs::rz(a(1)).mul(&qs::rx(a(0))).mul(&qs::rz(-a(1))), 1),
        ("CX", 0) => (qs::x().controlled(), 2),
        ("CY", 0) => (qs::y().controlled(), 2),
        ("CZ", 0) => (qs::z().controlled(), 2),
        ("CRz", 1) => (qs::rz(a(0)).controlled(), 2),
        ("ZZPhase", 1) => (qs::pauli2(&qs::z(), &qs::z(), a(0)), 2),
        ("ZZMax", 0) => (qs::pauli2(&qs::z(), &qs::z(), FRAC_PI_2), 2),
        ("SWAP", 0) => (qs::swap(), 2),
        ("CCX", 0) => (qs::x().controlled().controlled(), 3),
        _ => return None,
    })
}
/// A unitary nobody knows.
fn generic(key: u64, k: usize, ps: &[f64]) -> Mat {
    let d = 1 << k;
    let mut r = Rng::new(key);
    let mut f = || (r.next() % 20001) as f64 / 10000.0 - 1.0;
    let mut rows: Vec<Vec<C>> = vec![];
    for _ in 0..d {
        let mut v: Vec<C> = (0..d).map(|_| C(f(), f())).collect();
        for u in &rows {
            let c = qs::inner(u, &v);
            for (x, y) in v.iter_mut().zip(u) {
                *x = *x - c * *y;
            }
        }
        let n = v.iter().map(|c| c.n2()).sum::<f64>().sqrt();
        rows.push(v.into_iter().map(|c| c.scale(1.0 / n)).collect());
    }
    // angles act between two fixed unitaries
    let mut m = vec![C(0.0, 0.0); d * d];
    let mut w = |i: usize, j: usize| (hash(&(key, i, j)) % 7) as f64 - 3.0;
    for i in 0..d {
        let t: f64 = ps.iter().enumerate().map(|(j, p)| p * w(i, j)).sum();
        let ph = C::cis(t * FRAC_PI_2);
        for j in 0..d {
            m[i * d + j] = rows[i][j] * ph;
        }
    }
    let u = Mat::new(d, m);
    u.dagger().mul(&Mat::new(d, rows.concat())).mul(&u)
}
fn list<'a>(v: &'a J) -> &'a [J] {
    v.as_array().map(|v| &v[..]).unwrap_or(&[])
}
fn native(v: &J) -> Option<()> {
    matches!(v.as_str()?, "BitAnd" | "BitOr" | "BitXor" | "BitEq" | "BitNeq" | "BitNot" | "BitZero" | "BitOne").then_some(())
}
/// Boolean expressions; nothing for other expressions.
fn clexpr(e: &J, var: &dyn Fn(u64) -> Option<bool>) -> Option<bool> {
    native(&e["op"])?;
    let xs: Vec<bool> = list(&e["args"])
        .iter()
        .map(|a| match a["type"].as_str()? {
            "expr" => clexpr(&a["input"], var),
            _ => match a["input"]["type"].as_str()? {
                "int" => Some(a["input"]["term"].as_u64()? & 1 == 1),
                _ => {
                    let v = &a["input"]["term"];
                    (v["type"] == "bit").then_some(())?;
                    var(v["var"]["index"].as_u64()?)
                }
            },
        })
        .collect::<Option<_>>()?;
    Some(match (e["op"].as_str()?, xs.len()) {
        ("BitAnd", 1..) => xs.iter().all(|x| *x),
        ("BitOr", 1..) => xs.iter().any(|x| *x),
        ("BitXor", 1..) => xs.iter().fold(false, |a, b| a ^ b),
        ("BitEq", 2) => xs[0] == xs[1],
        ("BitNeq", 2) => xs[0] != xs[1],
        ("BitNot", 1) => !xs[0],
        ("BitZero", 0) => false,
        ("BitOne", 0) => true,
        _ => return None,
    })
}
/// Runs one command.
pub fn command(m: &mut Machine, op: &J, args: &[Arg], bits: &mut [bool], names: &Names) -> R<()> {
    let name = op["type"].as_str().unwrap_or("");
    let q: Vec<usize> = args.iter().filter_map(|a| if let Arg::Q(q) = a { Some(*q) } else { None }).collect();
    let b: Vec<usize> = args.iter().filter_map(|a| if let Arg::B(b) = a { Some(*b) } else { None }).collect();
    let ps: Vec<f64> = list(&op["params"]).iter().map(|p| names.value(p.as_str().unwrap_or(""))).collect::<R<_>>()?;
    if let Some((g, k)) = gate(name, &ps) {
        if k == q.len() && b.is_empty() {
            return m.gate_on(g, &q);
        }
    }
    match (name, q.len(), b.len()) {
        ("noop", 1, 0) | ("Barrier", ..) => return Ok(()),
        ("Phase", 0, 0) => return Ok(()),
        ("Reset", 1, 0) => return m.reset_q(q[0]),
        ("Measure", 1, 1) => {
            bits[b[0]] = m.measure_q(q[0])?;
            return Ok(());
        }
        ("SetBits", 0, n) if list(&op["classical"]["values"]).len() == n => {
            for (i, v) in list(&op["classical"]["values"]).iter().enumerate() {
                bits[b[i]] = v.as_bool().unwrap();
            }
            return Ok(());
        }
        ("CopyBits", 0, n) if op["classical"]["n_i"].as_u64() == Some(n as u64 / 2) && n % 2 == 0 => {
            let old: Vec<bool> = b.iter().map(|i| bits[*i]).collect();
            for i in 0..n / 2 {
                bits[b[n / 2 + i]] = old[i];
            }
            return Ok(());
        }
        ("ClExpr", 0, _) => {
            let e = &op["expr"];
            let at: HashMap<u64, usize> = list(&e["bit_posn"]).iter().filter_map(|p| Some((p[0].as_u64()?, p[1].as_u64()? as usize))).collect();
            if let (Some(v), Some([o])) = (clexpr(&e["expr"], &|i| bits.get(*b.get(*at.get(&i)?)?).copied()), e["output_posn"].as_array().map(|v| &v[..])) {
                if let Some(x) = o.as_u64().and_then(|o| b.get(o as usize)) {
                    bits[*x] = v;
                    return Ok(());
                }
            }
        }
        ("Conditional", ..) => {
            let c = &op["conditional"];
            let (w, v) = (c["width"].as_u64().unwrap_or(0) as usize, c["value"].as_u64().unwrap_or(0));
            if args.len() < w || !args[..w].iter().all(|a| matches!(a, Arg::B(_))) {
                return bad(format!("conditional with operands {args:?}"));
            }
            if b[..w].iter().enumerate().all(|(i, x)| bits[*x] == (v >> i & 1 == 1)) {
                return command(m, &c["op"], &args[w..], bits, &Names { vars: names.vars, anon: true });
            }
            return Ok(());
        }
        ("CircBox", ..) if op["box"]["type"] == "CircBox" => {
            let c: SerialCircuit = match serde_json::from_value(op["box"]["circuit"].clone()) {
                Ok(c) => c,
                Err(e) => return bad(format!("box: {e}")),
            };
            if c.qubits.len() == q.len() && c.bits.len() == b.len() {
                let mut inner: Vec<bool> = b.iter().map(|i| bits[*i]).collect();
                let out = circuit(m, &c, &q, &mut inner, names)?;
                for (i, v) in b.iter().zip(inner) {
                    bits[*i] = v;
                }
                // the states come out permuted
                let mut v = q.clone();
                for i in 0..q.len() {
                    while out[i] != v[i] {
                        let j = v.iter().position(|x| *x == out[i]).unwrap();
                        m.gate_on(qs::swap(), &[q[i], q[j]])?;
                        v.swap(i, j);
                    }
                }
                return Ok(());
            }
        }
        _ => {}
    }
    // whatever it is, it depends on its text, operands and angles
    let mut o = op.clone();
    let om = o.as_object_mut().unwrap();
    for k in ["signature", "params", "n_qb"] {
        om.remove(k);
    }
    let kinds: String = args.iter().map(|a| if let Arg::Q(_) = a { 'Q' } else { 'B' }).collect();
    let old: Vec<bool> = b.iter().map(|i| bits[*i]).collect();
    let key = hash(&(o.to_string(), kinds, &old));
    if !q.is_empty() {
        m.gate_on(generic(key, q.len(), &ps), &q)?;
    }
    for (i, x) in b.iter().enumerate() {
        bits[*x] = hash(&(key, i)) & 1 == 1;
    }
    Ok(())
}
/// Runs a circuit; the qubits in output order.
pub fn circuit(m: &mut Machine, c: &SerialCircuit, q: &[usize], bits: &mut [bool], names: &Names) -> R<Vec<usize>> {
    let mut at: HashMap<String, Arg> = HashMap::new();
    for (i, x) in c.qubits.iter().enumerate() {
        at.insert(x.id.to_string(), Arg::Q(q[i]));
    }
    for (i, x) in c.bits.iter().enumerate() {
        at.insert(x.id.to_string(), Arg::B(i));
    }
    for k in &c.commands {
        let args: Vec<Arg> = match k.args.iter().map(|a| at.get(&a.to_string()).copied()).collect::<Option<_>>() {
            Some(a) => a,
            None => return bad("unknown register"),
        };
        command(m, &json!(k.op), &args, bits, names)?;
    }
    let mut out = q.to_vec();
    for p in &c.implicit_permutation {
        let pos = |x: &tket_json_rs::register::Qubit| c.qubits.iter().position(|y| y == x);
        match (pos(&p.0), pos(&p.1)) {
            (Some(i), Some(o)) => out[o] = q[i],
            _ => return bad("unknown register in the permutation"),
        }
    }
    Ok(out)
}
/// A `tk1op`: inputs are qubits, bits and angles.
pub fn exec_opaque(m: &mut Machine, _n: Node, e: &hugr::ops::ExtensionOp, ins: Vec<Val>) -> R<Vec<Val>> {
    let Some(TypeArg::String(s)) = e.args().first() else { return bad("tk1op without payload") };
    let v: J = serde_json::from_str(s).map_err(|e| Halt::Bad(e.to_string()))?;
    let (nq, nb) = (v["num_qubits"].as_u64().unwrap() as usize, v["num_bits"].as_u64().unwrap() as usize);
    let mut q = vec![];
    for x in &ins[..nq] {
        match x {
            Val::Q(i) => q.push(*i),
            x => return bad(format!("not a qubit: {x:?}")),
        }
    }
    let mut bits: Vec<bool> = ins[nq..nq + nb].iter().map(|v| v.as_bool()).collect::<R<_>>()?;
    let angles: Vec<f64> = ins[nq + nb..]
        .iter()
        .map(|v| match v {
            Val::Rot(x) | Val::F(x) => Ok(*x),
            v => bad(format!("not an angle: {v:?}")),
        })
        .collect::<R<_>>()?;
    if let Some(vars) = v.get("vars") {
        // a whole circuit, as reference
        let vars: HashMap<String, f64> = list(vars).iter().map(|x| x.as_str().unwrap().to_string()).zip(angles).collect();
        let c: SerialCircuit = serde_json::from_value(v["op"]["box"]["circuit"].clone()).map_err(|e| Halt::Bad(e.to_string()))?;
        let out = circuit(m, &c, &q, &mut bits, &Names { vars: &vars, anon: false })?;
        return Ok(out.into_iter().map(Val::Q).chain(bits.into_iter().map(bool_v)).collect());
    }
    // a single operation; its angles come in through ports
    let mut op = v["op"].clone();
    let mut vars = HashMap::new();
    if let Some(ps) = op.get_mut("params").and_then(|p| p.as_array_mut()) {
        for (i, p) in ps.iter_mut().enumerate() {
            let name = format!("port{i}");
            let port = v["param_inputs"][i]["index"].as_u64().unwrap_or(i as u64) as usize;
            match angles.get(port) {
                Some(x) => vars.insert(name.clone(), *x),
                None => return bad("tk1op with too few angles"),
            };
            *p = json!(name);
        }
    }
    let sig: Vec<&str> = list(&op["signature"]).iter().filter_map(|x| x.as_str()).collect();
    let (mut iq, mut ib) = (q.iter(), 0..nb);
    let mut args: Vec<Arg> = vec![];
    if sig.iter().filter(|s| **s == "Q").count() == nq && sig.iter().filter(|s| **s != "Q").count() == nb && sig.len() == nq + nb {
        for s in &sig {
            args.push(if *s == "Q" { Arg::Q(*iq.next().unwrap()) } else { Arg::B(ib.next().unwrap()) });
        }
    } else {
        args.extend(q.iter().map(|q| Arg::Q(*q)));
        args.extend((0..nb).map(Arg::B));
    }
    command(m, &op, &args, &mut bits, &Names { vars: &vars, anon: false })?;
    Ok(q.into_iter().map(Val::Q).chain(bits.into_iter().map(bool_v)).collect())
}

/// Free symbols of the parameters that a circuit shows, in order of appearance.
pub fn symbols(c: &SerialCircuit) -> Vec<String> {
    fn op(o: &J, out: &mut Vec<String>) {
        for p in list(&o["params"]) {
            if let Some(e) = p.as_str().and_then(expr::parse) {
                let mut v = vec![];
                expr::vars(&e, &mut v);
                for x in v {
                    if !out.contains(&x) {
                        out.push(x);
                    }
                }
            }
        }
        for k in list(&o["box"]["circuit"]["commands"]) {
            op(&k["op"], out);
        }
    }
    let mut out = vec![];
    for k in &c.commands {
        op(&json!(k.op), &mut out);
    }
    out
}
/// A program that does what a circuit does. Inputs of the given types: qubits and bits in register order (the others
/// start as zero), angles are the symbols in the order given. Outputs of the given types in register order.
pub fn reference(c: &SerialCircuit, ins: &[Type], outs: &[Type], vars: &[String]) -> (Hugr, Node) {
    let mut h = Hugr::new();
    let root = h.module_root();
    let f = h.add_node_with_parent(root, hugr::ops::FuncDefn::new("reference", sig(ins, outs)));
    h.set_entrypoint(f);
    let mut r = new_region(&mut h, f, ins, 0);
    let (mut q, mut b, mut a) = (vec![], vec![], vec![]);
    for w in r.wires.clone() {
        if w.t == t_q() {
            q.push(w);
        } else if w.t == t_b() || w.t == t_tb() {
            b.push(w);
        } else {
            a.push(w);
        }
    }
    while q.len() < c.qubits.len() {
        q.extend(add(&mut h, &mut r, crate::hb::q("QAlloc"), &[]));
    }
    while b.len() < c.bits.len() {
        let w = load_const(&mut h, &mut r, c_b(false), f);
        b.push(w);
    }
    q.truncate(c.qubits.len());
    b.truncate(c.bits.len());
    let k = vars.len().min(a.len());
    let payload = json!({"op": {"type": "CircBox", "params": vec!["0"; k], "box": {"type": "CircBox", "id": "00000000-0000-0000-0000-000000000000", "circuit": c}}, "num_qubits": q.len(), "num_bits": b.len(), "param_inputs": (0..k).map(|i| json!({"index": i})).collect::<Vec<_>>(), "num_params": k, "vars": vars[..k]});
    let w: Vec<Wire> = q.iter().chain(&b).chain(&a[..k]).cloned().collect();
    let o = add(&mut h, &mut r, xop("TKET1", "tk1op", &[TypeArg::String(payload.to_string())]), &w);
    let (mut iq, mut ib) = (o[..q.len()].iter(), o[q.len()..].iter());
    let w: Vec<Wire> = outs
        .iter()
        .map(|t| {
            let w = if *t == t_q() { iq.next() } else { ib.next() }.expect("too many outputs");
            Wire { t: t.clone(), ..w.clone() }
        })
        .collect();
    set_outputs(&mut h, &r, &w);
    (h, f)
}
