//! C08: angle expressions.
use super::common::*;
use crate::ensure;
use crate::expr::*;
use crate::gen::Src;
use crate::hb;
use crate::hb::*;
use crate::run::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpType, Value};
use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use serde_json::json;
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, TKETDecode};
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;
use tket_qsystem::pytket::{qsystem_decoder_config, qsystem_encoder_config};

const NAMES: &[&str] = &["a", "b", "x", "theta", "e4", "f64", "a_1", "pix", "max", "p1i"];

fn expr(src: &mut Src, d: usize) -> E {
    let leaf = d == 0 || src.chance(1, 5);
    if leaf {
        return match src.below(5) {
            0 => E::Num(src.range(0, 9) as f64),
            1 => E::Num(src.draw(1 << 53) as f64 / (1u64 << 53) as f64 * 4.0),
            2 => E::Num(src.range(0, 400) as f64 / 100.0),
            3 => E::Var("pi".into()),
            _ => E::Var(src.pick(NAMES).to_string()),
        };
    }
    match src.weighted(&[3, 3, 3, 2, 3, 2, 2, 2]) {
        0 => E::Bin('+', expr(src, d - 1).into(), expr(src, d - 1).into()),
        1 => E::Bin('-', expr(src, d - 1).into(), expr(src, d - 1).into()),
        2 => E::Bin('*', expr(src, d - 1).into(), expr(src, d - 1).into()),
        3 => E::Bin('/', expr(src, d - 1).into(), expr(src, d - 1).into()),
        4 => E::Neg(expr(src, d - 1).into()),
        5 => E::Bin('^', expr(src, d - 1).into(), expr(src, d - 1).into()),
        6 => {
            let n = E::Num(src.range(0, 500) as f64 / if src.flip() { 1.0 } else { 100.0 });
            let x = match src.below(4) {
                0 => E::Var("pi".into()),
                1 => E::Var(src.pick(NAMES).to_string()),
                2 => fun(src, d - 1),
                _ => E::Bin(src.choose(&['+', '-', '*', '/']), expr(src, d - 1).into(), expr(src, d - 1).into()),
            };
            E::Impl(n.into(), x.into())
        }
        _ => fun(src, d),
    }
}
fn fun(src: &mut Src, d: usize) -> E {
    let d = d.saturating_sub(1);
    let (n, k) = src.choose(&[("max", 2), ("min", 2), ("abs", 1), ("floor", 1), ("ceil", 1), ("round", 1), ("max", 2), ("min", 2), ("abs", 1), ("sin", 1), ("cos", 1)]);
    E::Fun(n.into(), (0..k).map(|_| expr(src, d)).collect())
}
fn sp(src: &mut Src, o: &mut String) {
    match src.below(8) {
        6 => o.push(' '),
        7 => o.push_str(src.choose(&["  ", "\t", " \t "])),
        _ => {}
    }
}
/// Writes an expression, with the brackets it needs and sometimes more.
fn write(src: &mut Src, e: &E, min: u8, o: &mut String) {
    let prec = match e {
        E::Bin('+' | '-', ..) => 1,
        E::Bin('*' | '/', ..) => 2,
        E::Neg(_) => 3,
        E::Bin(..) => 4,
        E::Impl(..) => 5,
        _ => 6,
    };
    if prec < min || src.chance(1, 12) {
        o.push('(');
        sp(src, o);
        write(src, e, 0, o);
        sp(src, o);
        o.push(')');
        return;
    }
    match e {
        E::Num(x) => {
            let mut s = match src.below(8) {
                6 => format!("{x:e}"),
                7 => format!("{x:E}"),
                _ => format!("{x}"),
            };
            if !s.contains(['.', 'e', 'E']) && src.chance(1, 8) {
                s.push('.');
            }
            o.push_str(&s)
        }
        E::Var(n) => o.push_str(n),
        E::Neg(a) => {
            o.push('-');
            sp(src, o);
            write(src, a, 3, o);
        }
        E::Bin(c, a, b) => {
            // `-a` may start a sum or a product; a power is right associative
            let (l, r) = match c {
                '+' => (1, 2),
                '-' => (1, 2),
                '^' => (6, 3),
                _ => (2, 3),
            };
            write(src, a, l, o);
            sp(src, o);
            o.push_str(&if *c == '^' { "**".to_string() } else { c.to_string() });
            sp(src, o);
            write(src, b, r, o);
        }
        E::Impl(a, b) => {
            let E::Num(x) = **a else { unreachable!() };
            o.push_str(&format!("{x}"));
            let mut t = String::new();
            write(src, b, 6, &mut t);
            if t.starts_with(['e', 'E', '.']) || t.starts_with(|c: char| c.is_ascii_digit()) || src.chance(1, 6) {
                o.push(' ');
            }
            // a number cannot follow
            if matches!(**b, E::Num(_)) { o.push_str(&format!("({t})")) } else { o.push_str(&t) }
        }
        E::Fun(n, args) => {
            o.push_str(n);
            o.push('(');
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                sp(src, o);
                write(src, a, 0, o);
                sp(src, o);
            }
            if src.chance(1, 10) {
                o.push(',');
            }
            o.push(')');
        }
    }
}
/// Values for the symbols, and the value of an expression if it is well-conditioned.
fn env(src: &mut Src) -> Env {
    NAMES.iter().map(|n| (n.to_string(), src.irange(-3000, 3000) as f64 / 977.0)).collect()
}
fn solid(e: &E, env: &Env) -> Option<f64> {
    let v = eval(e, env, 0.0)?;
    let ok = [1e-9, -1e-9].iter().all(|f| eval(e, env, *f).is_some_and(|w| (v - w).abs() < 1e-5 * (1.0 + v.abs())));
    (ok && v.abs() < 1e9).then_some(v)
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-5 * (1.0 + a.abs())
}
/// The value on a wire of floats and rotations.
pub fn value(h: &Hugr, n: Node, p: OutgoingPort, input: &dyn Fn(usize) -> Option<f64>, env: &Env) -> Option<f64> {
    let op = h.get_optype(n);
    let arg = |i: usize| {
        let (m, q) = h.single_linked_output(n, IncomingPort::from(i))?;
        value(h, m, q, input, env)
    };
    Some(match op {
        OpType::Input(_) => input(p.index())?,
        OpType::LoadConstant(_) => {
            let (c, _) = h.single_linked_output(n, IncomingPort::from(0))?;
            let OpType::Const(c) = h.get_optype(c) else { return None };
            let Value::Extension { e } = c.value() else { return None };
            if let Some(f) = e.value().downcast_ref::<hugr::std_extensions::arithmetic::float_types::ConstF64>() {
                f.value()
            } else {
                e.value().downcast_ref::<tket::extension::rotation::ConstRotation>()?.half_turns()
            }
        }
        OpType::ExtensionOp(x) => match x.def().name().as_str() {
            "fadd" | "radd" => arg(0)? + arg(1)?,
            "fsub" => arg(0)? - arg(1)?,
            "fmul" => arg(0)? * arg(1)?,
            "fdiv" => arg(0)? / arg(1)?,
            "fpow" => arg(0)?.powf(arg(1)?),
            "fmax" => arg(0)?.max(arg(1)?),
            "fmin" => arg(0)?.min(arg(1)?),
            "fneg" => -arg(0)?,
            "fabs" => arg(0)?.abs(),
            "ffloor" => arg(0)?.floor(),
            "fceil" => arg(0)?.ceil(),
            "fround" => arg(0)?.round(),
            "from_halfturns_unchecked" | "to_halfturns" => arg(0)?,
            "symbolic_angle" => {
                let hugr::types::TypeArg::String(s) = x.args().first()? else { return None };
                eval_str(s, env)?
            }
            o => panic!("harness: unknown operation {o} on angles"),
        },
        _ => return None,
    })
}
/// The gates on each qubit in order: name, and the wires of its parameters.
fn gates(h: &Hugr, r: Node) -> Vec<Vec<(String, Vec<(Node, OutgoingPort)>, f64)>> {
    let [inp, _] = h.get_io(r).unwrap();
    let mut all = vec![];
    for (p, t) in h.out_value_types(inp) {
        if !is_q(&t) {
            continue;
        }
        let (mut n, mut q) = h.linked_inputs(inp, p).next().unwrap();
        let mut l = vec![];
        while let OpType::ExtensionOp(x) = h.get_optype(n) {
            let ps = h.in_value_types(n).filter(|(_, t)| *t == t_f() || *t == t_r()).map(|(p, _)| h.single_linked_output(n, p).unwrap()).collect();
            let mut name = x.def().name().to_string();
            if name == "tk1op" {
                let hugr::types::TypeArg::String(s) = &x.args()[0] else { panic!() };
                let v: serde_json::Value = serde_json::from_str(s).unwrap();
                name = v["op"]["type"].as_str().unwrap().to_string();
            }
            let unit = if x.def().extension_id().to_string() == "tket.qsystem" { std::f64::consts::PI } else { 1.0 };
            l.push((name, ps, unit));
            (n, q) = h.linked_inputs(n, OutgoingPort::from(q.index())).next().unwrap();
        }
        all.push(l);
    }
    all
}
/// What a pytket circuit does to each qubit.
fn commands(c: &SerialCircuit) -> Vec<Vec<(String, Vec<String>)>> {
    c.qubits
        .iter()
        .map(|q| c.commands.iter().filter(|k| k.args.contains(&q.id)).map(|k| (format!("{:?}", k.op.op_type), k.op.params.clone().unwrap_or_default())).collect())
        .collect()
}
const GATES: &[(&str, usize, usize)] = &[("Rz", 1, 1), ("Rx", 1, 1), ("Ry", 1, 1), ("CRz", 2, 1), ("PhasedX", 1, 2), ("ZZPhase", 2, 1), ("TK1", 1, 3), ("U3", 1, 3), ("XXPhase", 2, 1), ("U1", 1, 1)];
struct Opts {
    qsys: bool,
}
fn circuit(src: &mut Src, params: &mut dyn FnMut(&mut Src) -> String) -> SerialCircuit {
    let nq = src.range(1, 2);
    let n = src.range(1, 4);
    let cmds: Vec<_> = (0..n)
        .map(|_| {
            let (g, k, p) = loop {
                let g = src.choose(GATES);
                if g.1 <= nq {
                    break g;
                }
                if nq == 1 && src.log.len() > 10000 {
                    break GATES[0];
                }
            };
            let mut qs: Vec<usize> = (0..nq).collect();
            src.shuffle(&mut qs);
            json!({"op": {"type": g, "params": (0..p).map(|_| params(src)).collect::<Vec<_>>()}, "args": qs[..k].iter().map(|i| json!(["q", [i]])).collect::<Vec<_>>()})
        })
        .collect();
    let q: Vec<_> = (0..nq).map(|i| json!(["q", [i]])).collect();
    let v = json!({"phase": "0", "commands": cmds, "qubits": q, "bits": [], "implicit_permutation": q.iter().map(|i| json!([i, i])).collect::<Vec<_>>()});
    serde_json::from_value(v).unwrap()
}
fn enc(h: &Hugr, o: &Opts) -> Res<Result<SerialCircuit, String>> {
    let mut e = EncodeOptions::new();
    if o.qsys {
        e = e.with_config(qsystem_encoder_config());
    }
    let c = Circuit::new(h.clone());
    no_panic("encode", || SerialCircuit::encode(&c, e).map_err(|e| e.to_string()))
}

fn decode(c: &mut Case) -> Res {
    let env = env(&mut c.src);
    let mut exprs = vec![];
    let depth = c.src.range(1, 4);
    let sc = circuit(&mut c.src, &mut |s: &mut Src| {
        let e = expr(s, depth);
        let mut t = String::new();
        sp(s, &mut t);
        write(s, &e, 0, &mut t);
        sp(s, &mut t);
        assert_eq!(parse(&t).and_then(|x| eval(&x, &env, 0.0)), eval(&e, &env, 0.0), "harness: {e:?} is written as {t} and read as {:?}", parse(&t));
        exprs.push((t.clone(), e));
        t
    });
    // options
    let o = Opts { qsys: c.src.flip() };
    let mut d = DecodeOptions::new();
    if o.qsys {
        d = d.with_config(qsystem_decoder_config());
    }
    let mut given = vec![];
    if c.src.chance(1, 3) {
        let mut names: Vec<&str> = NAMES.to_vec();
        c.src.shuffle(&mut names);
        let k = c.src.range(0, 3);
        given = names[..k].iter().map(|s| s.to_string()).collect();
        d = d.with_input_params(given.clone());
    }
    let nq = sc.qubits.len();
    let mut ins = vec![t_q(); nq];
    if c.src.chance(1, 3) {
        let k = c.src.range(0, 3);
        for _ in 0..k {
            let at = c.src.below(ins.len() + 1);
            let t = if c.src.flip() { t_f() } else { t_r() };
            ins.insert(at, t);
        }
        d = d.with_signature(sig(&ins, &vec![t_q(); nq]));
    }
    c.describe(|| format!("{}\n{ins:?} {given:?} qsystem: {}", serde_json::to_string(&sc).unwrap(), o.qsys));
    c.fingerprint(&(serde_json::to_string(&sc).unwrap(), format!("{ins:?}{given:?}")));
    let circ = match no_panic("decode", || sc.decode(d))? {
        Ok(c) => c,
        Err(e) => return fail("decode: error", e.to_string()),
    };
    let h = circ.hugr().clone();
    valid(&h, "decode")?;
    let r = h.entrypoint();
    // the symbols and their inputs
    let names: Vec<String> = match h.get_metadata(r, "TKET1.input_parameters") {
        Some(m) => serde_json::from_value(m.clone()).unwrap(),
        None => vec![],
    };
    let inner = h.inner_function_type().unwrap();
    let pos: Vec<usize> = inner.input_types().iter().enumerate().filter(|(_, t)| !is_q(t)).map(|x| x.0).collect();
    let given_in = ins.iter().filter(|t| !is_q(t)).count();
    ensure!(inner.input_types()[..ins.len()] == ins[..] && inner.input_types()[ins.len()..].iter().all(|t| *t == t_r()), "signature", "{inner}");
    ensure!(names.len() <= pos.len() && pos.len() <= names.len().max(given_in), "parameter inputs", "{names:?} for {inner}");
    let mut uniq = names.clone();
    uniq.sort();
    uniq.dedup();
    ensure!(uniq.len() == names.len() && given.iter().enumerate().all(|(i, g)| names.get(i) == Some(g)), "parameter names", "{names:?}, given {given:?}");
    let mut used = vec![];
    for (_, e) in &exprs {
        outer_vars(e, &mut used);
    }
    for u in &used {
        ensure!(names.contains(u), "parameter names", "{u} is not among {names:?}");
    }
    ensure!(names.iter().all(|n| used.contains(n) || given.contains(n)), "parameter names", "{names:?} for {used:?}");
    let input = |i: usize| pos.iter().position(|p| *p == i).and_then(|k| names.get(k)).and_then(|n| env.get(n)).copied();
    let g = gates(&h, r);
    let e = commands(&sc);
    let again = match enc(&h, &o)? {
        Ok(s) => s,
        Err(e) => return fail("encode: error", e),
    };
    let a = commands(&again);
    let mut solid_any = false;
    for q in 0..nq {
        let (gn, en): (Vec<_>, Vec<_>) = (g[q].iter().map(|x| x.0.clone()).collect(), e[q].iter().map(|x| x.0.clone()).collect());
        ensure!(gn == en, "gates", "{gn:?} instead of {en:?}");
        let an: Vec<_> = a[q].iter().map(|x| x.0.clone()).collect();
        ensure!(an == en, "gates encoded", "{an:?} instead of {en:?}");
        for ((name, ps, unit), ((_, es), (_, as_))) in g[q].iter().zip(e[q].iter().zip(&a[q])) {
            ensure!(ps.len() == es.len() && as_.len() == es.len(), "parameters", "{name} has {} parameters", ps.len());
            for ((p, t), t2) in ps.iter().zip(es).zip(as_) {
                let ex = &exprs.iter().find(|x| x.0 == *t).unwrap().1;
                let Some(v) = solid(ex, &env) else { continue };
                solid_any = true;
                let w = value(&h, p.0, p.1, &input, &env).map(|x| x / unit);
                ensure!(w.is_some_and(|w| close(v, w)), "decoded value", "{name}({t}) is {v} but decoded as {w:?}");
                let x = eval_str(t2, &env);
                ensure!(x.is_some_and(|x| close(v, x)), "encoded value", "{name}({t}) is {v} but encoded as {t2}, which is {x:?}");
            }
        }
    }
    if !solid_any {
        return Err(Stop::Discard("no well-conditioned value"));
    }
    c.nontrivial = exprs.iter().any(|e| matches!(e.1, E::Bin(..) | E::Fun(..) | E::Impl(..)));
    Ok(())
}
/// Symbols that are not within an opaque part.
fn outer_vars(e: &E, out: &mut Vec<String>) {
    match e {
        E::Fun(n, a) => {
            if !["sin", "cos", "sqrt", "exp"].contains(&n.as_str()) {
                a.iter().for_each(|x| outer_vars(x, out))
            }
        }
        E::Neg(a) => outer_vars(a, out),
        E::Bin(_, a, b) | E::Impl(a, b) => {
            outer_vars(a, out);
            outer_vars(b, out);
        }
        _ => vars(e, out),
    }
}

/// Computations in a program.
fn encode(c: &mut Case) -> Res {
    let env = env(&mut c.src);
    let qsys = c.src.flip();
    let nq = c.src.range(1, 2);
    let np = c.src.below(4);
    let mut ins = vec![t_q(); nq];
    for _ in 0..np {
        ins.push(if c.src.flip() { t_f() } else { t_r() });
    }
    let outs = vec![t_q(); nq];
    let mut h = Hugr::new();
    let root = h.module_root();
    let f = h.add_node_with_parent(root, hugr::ops::FuncDefn::new("main", sig(&ins, &outs)));
    h.set_entrypoint(f);
    let mut r = new_region(&mut h, f, &ins, 0);
    let mut qs: Vec<hb::Wire> = r.wires[..nq].to_vec();
    let mut vals: Vec<hb::Wire> = r.wires[nq..].to_vec();
    let names: Vec<String> = NAMES[..np].iter().map(|s| s.to_string()).collect();
    let named = c.src.flip();
    if named {
        h.set_metadata(f, "TKET1.input_parameters", json!(names));
    }
    let mut ng = 0;
    let steps = c.src.range(2, 14);
    for _ in 0..steps {
        let k = c.src.weighted(&[3, 8, 4]);
        if k == 0 || vals.is_empty() {
            let x = match c.src.below(4) {
                0 => c.src.float(),
                1 => std::f64::consts::PI * c.src.irange(-4, 4) as f64 / 4.0,
                2 => 1.0,
                _ => c.src.irange(-6, 6) as f64,
            };
            let v = if c.src.flip() { c_f(x) } else { c_r(x) };
            let at = f;
            let w = load_const(&mut h, &mut r, v, at);
            vals.push(w);
        } else if k == 1 {
            let (ext, name, n) = c.src.choose(&[
                ("f", "fadd", 2), ("f", "fsub", 2), ("f", "fmul", 2), ("f", "fdiv", 2), ("f", "fpow", 2), ("f", "fmax", 2), ("f", "fmin", 2), ("f", "fneg", 1), ("f", "fabs", 1), ("f", "ffloor", 1), ("f", "fceil", 1), ("f", "fround", 1),
                ("r", "radd", 2), ("r", "radd", 2), ("f", "fdiv", 2), ("f", "fsub", 2), ("s", "sin(a) * (pi)", 0), ("s", "(x) + cos(b) * (pi)", 0), ("s", "2*(x + 1)", 0),
            ]);
            if ext == "s" {
                let w = add(&mut h, &mut r, xop("tket.quantum", "symbolic_angle", &[hugr::types::TypeArg::String(name.to_string())]), &[]);
                vals.extend(w);
                continue;
            }
            let want = if ext == "r" { t_r() } else { t_f() };
            let a: Vec<hb::Wire> = (0..n).map(|_| { let w = c.src.choose(&vals); conv(&mut h, &mut r, w, &want) }).collect();
            let op = if ext == "r" { xop("tket.rotation", name, &[]) } else { xop("arithmetic.float", name, &[]) };
            vals.extend(add(&mut h, &mut r, op, &a));
        } else {
            let (e, g, k, p) = if qsys { c.src.choose(&[("tket.qsystem", "Rz", 1, 1), ("tket.qsystem", "PhasedX", 1, 2), ("tket.qsystem", "ZZPhase", 2, 1), ("tket.quantum", "Rx", 1, 1)]) } else { c.src.choose(&[("tket.quantum", "Rz", 1, 1), ("tket.quantum", "Rx", 1, 1), ("tket.quantum", "Ry", 1, 1), ("tket.quantum", "CRz", 2, 1)]) };
            if k > nq {
                continue;
            }
            let mut order: Vec<usize> = (0..nq).collect();
            c.src.shuffle(&mut order);
            let mut a: Vec<hb::Wire> = order[..k].iter().map(|i| qs[*i].clone()).collect();
            for _ in 0..p {
                let w = c.src.choose(&vals);
                a.push(conv(&mut h, &mut r, w, &if e == "tket.qsystem" { t_f() } else { t_r() }));
            }
            let o = add(&mut h, &mut r, xop(e, g, &[]), &a);
            for (i, w) in order[..k].iter().zip(o) {
                qs[*i] = w;
            }
            ng += 1;
        }
    }
    if ng == 0 {
        return Err(Stop::Discard("no gate"));
    }
    set_outputs(&mut h, &r, &qs);
    must_validate(&h, "program");
    c.describe(|| format!("qsystem: {qsys}, named: {named}\n{}", show(&h)));
    c.fingerprint(&show(&h));
    let sc = match enc(&h, &Opts { qsys })? {
        Ok(s) => s,
        Err(e) => return fail("encode: error", e),
    };
    let input = |i: usize| NAMES.get(i - nq).and_then(|n| env.get(*n)).copied();
    let mut env2 = env.clone();
    for i in 0..np {
        env2.insert(format!("f{i}"), env[NAMES[i]]);
    }
    let (g, a) = (gates(&h, f), commands(&sc));
    for q in 0..nq {
        let (gn, an): (Vec<_>, Vec<_>) = (g[q].iter().map(|x| x.0.clone()).collect(), a[q].iter().map(|x| x.0.clone()).collect());
        ensure!(gn == an, "gates encoded", "{an:?} instead of {gn:?}");
        for ((name, ps, unit), (_, ts)) in g[q].iter().zip(&a[q]) {
            ensure!(ps.len() == ts.len(), "parameters", "{name} {ts:?}");
            for (p, t) in ps.iter().zip(ts) {
                let Some(v) = value(&h, p.0, p.1, &input, &env).filter(|v| v.is_finite()) else { continue };
                let Some(ex) = parse(t) else { return fail("encoded text", format!("{name}({t}) cannot be read")) };
                let e3 = if named { &env } else { &env2 };
                let Some(w) = solid(&ex, e3) else { continue };
                let v = v / unit;
                ensure!(close(v, w), "encoded value", "{name}({t}): {w} instead of {v}");
                c.nontrivial |= matches!(ex, E::Bin(..) | E::Fun(..));
            }
        }
    }
    Ok(())
}
fn conv(h: &mut Hugr, r: &mut Region, w: hb::Wire, want: &hugr::types::Type) -> hb::Wire {
    if w.t == *want {
        return w;
    }
    let op = if *want == t_r() { "from_halfturns_unchecked" } else { "to_halfturns" };
    add(h, r, xop("tket.rotation", op, &[]), &[w]).remove(0)
}

/// Without spaces and brackets around it.
fn bare(t: &str) -> &str {
    let t = t.trim_matches([' ', '\t']);
    if let Some(u) = t.strip_prefix('(').and_then(|u| u.strip_suffix(')')) {
        let mut d = 0i32;
        if u.chars().all(|c| {
            d += match c { '(' => 1, ')' => -1, _ => 0 };
            d >= 0
        }) {
            return bare(u);
        }
    }
    t
}
/// Any text.
fn strings(c: &mut Case) -> Res {
    let text = |s: &mut Src| -> String {
        let mut t = String::new();
        match s.below(4) {
            0 => {
                // damaged
                let d = s.range(1, 3);
                let e = expr(s, d);
                write(s, &e, 0, &mut t);
                for _ in 0..s.range(1, 3) {
                    let mut v: Vec<char> = t.chars().collect();
                    let i = s.below(v.len() + 1);
                    let ch = s.choose(&['(', ')', '-', '+', '*', '/', '.', ',', 'e', '1', '0', ' ', 'é', 'x', '_', '"', '\n', '∞', '^']);
                    match s.below(3) {
                        0 => v.insert(i, ch),
                        1 if i < v.len() => {
                            v.remove(i);
                        }
                        _ if i < v.len() => v[i] = ch,
                        _ => {}
                    }
                    t = v.into_iter().collect();
                }
            }
            1 => {
                let n = s.below(9);
                for _ in 0..n {
                    t.push_str(s.choose(&["max", "min", "abs", "floor", "round", "(", ")", ",", "1", "2", "x", "pi", "-", "+", "*", "**", "/", " ", "1e400", "-1e999", "1e-400", ".5", "00", "E", "I", "sqrt", "()", "1.5.2", "0x1", "inf", "nan", "oo", "zoo", "--", "\u{a0}", "99999999999999999999999"]));
                }
            }
            2 => {
                // wrong number of arguments
                let f = s.choose(&["max", "min", "abs", "floor", "ceil", "round", "foo"]);
                let k = s.below(4);
                let a: Vec<String> = (0..k).map(|_| { let e = expr(s, 1); let mut t = String::new(); write(s, &e, 0, &mut t); t }).collect();
                t = format!("{f}({})", a.join(","));
                if s.flip() {
                    t = format!("{} {t} * 2", s.choose(&["1+", "x - ", "2", ""]));
                }
            }
            _ => {
                let n = s.below(12);
                for _ in 0..n {
                    t.push(char::from_u32(s.draw(if s.log.len() % 3 == 0 { 0x2fff } else { 0x7f }) as u32).unwrap_or('?'));
                }
            }
        }
        t
    };
    let env = env(&mut c.src);
    let mut all = vec![];
    let sc = circuit(&mut c.src, &mut |s: &mut Src| {
        let t = text(s);
        all.push(t.clone());
        t
    });
    let o = Opts { qsys: c.src.flip() };
    c.describe(|| format!("{all:?}"));
    c.fingerprint(&all);
    let mut d = DecodeOptions::new();
    if o.qsys {
        d = d.with_config(qsystem_decoder_config());
    }
    let circ = match no_panic("decode", || sc.decode(d))? {
        Ok(c) => c,
        Err(_) => {
            c.label("refused");
            return Ok(());
        }
    };
    let h = circ.hugr().clone();
    valid(&h, "decode")?;
    let r = h.entrypoint();
    let names: Vec<String> = match h.get_metadata(r, "TKET1.input_parameters") {
        Some(m) => serde_json::from_value(m.clone()).unwrap(),
        None => vec![],
    };
    let nq = sc.qubits.len();
    let input = |i: usize| names.get(i - nq).and_then(|n| env.get(n)).copied();
    let again = match enc(&h, &o)? {
        Ok(s) => s,
        Err(e) => return fail("encode: error", e),
    };
    let (g, e, a) = (gates(&h, r), commands(&sc), commands(&again));
    for q in 0..nq {
        for ((name, ps, unit), ((_, es), (_, as_))) in g[q].iter().zip(e[q].iter().zip(&a[q])) {
            for ((p, t), t2) in ps.iter().zip(es).zip(as_) {
                let opaque = matches!(h.get_optype(p.0), OpType::ExtensionOp(x) if x.def().name().as_str() == "symbolic_angle");
                if opaque && *unit == 1.0 {
                    ensure!(bare(t) == bare(t2), "opaque text", "{t:?} becomes {t2:?}");
                    c.label("opaque");
                }
                // when it means something, it means the same
                let Some(v) = parse(t).and_then(|x| solid(&x, &env)) else { continue };
                let w = value(&h, p.0, p.1, &input, &env).map(|x| x / unit);
                ensure!(w.is_some_and(|w| close(v, w)), "decoded value", "{name}({t}) is {v} but decoded as {w:?}");
                let x = eval_str(t2, &env);
                ensure!(x.is_some_and(|x| close(v, x)), "encoded value", "{name}({t}) is {v} but encoded as {t2}, which is {x:?}");
                c.label("still meaningful");
            }
        }
    }
    c.nontrivial = true;
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "a well-conditioned expression with an operator or function; any damaged text",
        assumptions: &["values are compared where the expression is well-conditioned", "a number multiplied implicitly (2x) binds more strongly than any operator, as documented", "no expression is nested deeper than 500 levels"],
        suites: vec![Suite { name: "decode", quick: 60000, thorough: 3000000, run: decode }, Suite { name: "encode", quick: 40000, thorough: 2000000, run: encode }, Suite { name: "strings", quick: 60000, thorough: 3000000, run: strings }],
        hang_violation: None,
    }
}
