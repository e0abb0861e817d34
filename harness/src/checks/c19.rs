//! C19, C20, C21: resolving control, adjoint and nested modifiers.
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::modgen::*;
use crate::run::*;
use hugr::algorithms::ComposablePass;
use hugr::ops::OpType;
use hugr::types::Type;
use hugr::{Hugr, HugrView, Node};
use tket::modifier::modifier_resolver::resolve_modifier_with_entrypoints;
use tket::modifier::ModifierResolverPass;

pub struct P {
    pub h: Hugr,
    pub main: Node,
    pub ins: Vec<Type>,
    pub outs: Vec<Type>,
    pub verdict: Verdict,
    pub modified: usize,
    pub feats: Vec<String>,
}
const SMALL: &[(W, usize)] = &[(W::Gate, 12), (W::Phase, 2), (W::Class, 2)];
pub fn base(w: &[(W, usize)]) -> Cfg {
    Cfg { ops: (0, 5), sub: (0, 3), depth: 2, max_ctrl: 2, max_l: 3, arrays: false, w: w.to_vec(), dagger: false, wrong: 0, power: false }
}
pub fn rich() -> Cfg {
    let mut k = base(&[
        (W::Gate, 14), (W::Phase, 2), (W::Class, 3), (W::Pack, 2), (W::Unpack, 2), (W::Convert, 1), (W::Dfg, 3), (W::Cond, 3), (W::Loop, 1), (W::Cfg1, 2), (W::Call, 3), (W::CallInd, 2), (W::Noop, 1), (W::Barrier, 1),
        (W::Tuple, 1), (W::Order, 1), (W::Measure, 1), (W::Alloc, 1), (W::Cfg2, 1), (W::ArrOp, 1),
    ]);
    k.arrays = true;
    k.wrong = 20;
    k
}
/// Some functions and a main program with modified calls among other code.
pub fn make(src: &mut crate::gen::Src, cfg: &Cfg, nf: (usize, usize), main_ops: (usize, usize), last_only: bool, extra_q: usize) -> P {
    let mut b = B::new(src, cfg.clone());
    let n = b.src.range(nf.0, nf.1);
    for i in 0..n {
        b.function(i);
    }
    let fs = b.fs.clone();
    let target = if last_only { fs.len() - 1 } else { b.src.below(fs.len()) };
    let f = fs[target].clone();
    let nq = (f.l.iter().map(qubits_in).sum::<usize>() + b.cfg.max_ctrl + b.src.below(extra_q + 1)).max(1);
    let (main, ins, outs) = b.main(nq, |b, r| {
        let before = b.src.range(main_ops.0, main_ops.1);
        b.body(r, before);
        b.call(r, &f, W::Mods);
        let after = b.src.range(main_ops.0, main_ops.1);
        b.body(r, after);
    });
    // functions that nothing uses may be looked at, or not
    let dead = fs.iter().map(|f| f.here).max().unwrap_or(Verdict::Works).min(Verdict::May);
    let B { h, verdict, modified, feats, .. } = b;
    let verdict = verdict.max(dead);
    P { h, main, ins, outs, verdict, modified, feats: feats.into_iter().collect() }
}
/// The functions used from a node.
pub fn used_from(h: &Hugr, n: Node) -> Vec<Node> {
    let (mut out, mut todo) = (vec![], vec![n]);
    while let Some(f) = todo.pop() {
        if out.contains(&f) {
            continue;
        }
        out.push(f);
        for d in h.descendants(f).filter(|d| !matches!(h.get_optype(*d), OpType::Module(_))) {
            if let Some(p) = h.get_optype(d).static_input_port() {
                todo.extend(h.single_linked_output(d, p).map(|x| x.0).filter(|x| matches!(h.get_optype(*x), OpType::FuncDefn(_))));
            }
        }
    }
    out
}
/// The operations for modifiers and phases in code that may run.
pub fn leftovers(h: &Hugr, n: Node) -> Vec<String> {
    used_from(h, n)
        .into_iter()
        .flat_map(|f| h.descendants(f))
        .filter_map(|n| match h.get_optype(n) {
            OpType::ExtensionOp(e) if ["tket.modifier", "tket.global_phase"].contains(&e.def().extension_id().to_string().as_str()) => Some(e.qualified_id().to_string()),
            _ => None,
        })
        .collect()
}
pub fn go(c: &mut Case, p: P) -> Res {
    must_validate(&p.h, "generated program");
    if p.modified == 0 {
        return Err(Stop::Discard("nothing is modified"));
    }
    c.describe(|| format!("{:?} {:?}\n{}", p.verdict, p.feats, show(&p.h)));
    for f in &p.feats {
        c.label(f.as_str());
    }
    let before = match p.verdict {
        Verdict::No => None,
        _ => Some(sim_before(&p.h, p.main, &p.ins, &p.outs, &SimOpts::default())?),
    };
    let mut h = p.h.clone();
    let how = c.src.below(3);
    let r = no_panic("resolving", || match how {
        0 => ModifierResolverPass.run(&mut h),
        1 => resolve_modifier_with_entrypoints(&mut h, [p.main]),
        _ => {
            let m = h.module_root();
            resolve_modifier_with_entrypoints(&mut h, [m])
        }
    })?;
    c.fingerprint(&show(&p.h));
    match (&r, p.verdict) {
        (Err(e), Verdict::Works) => return fail(format!("refused: {}", kind_of(&format!("{e:?}"))), format!("{e}")),
        (Err(_), _) => {
            c.label("refused");
            c.nontrivial = p.verdict == Verdict::No;
            return Ok(());
        }
        (Ok(()), Verdict::No) => return fail("accepted", format!("a function that cannot be modified is\n{}", show(&h))),
        _ => {}
    }
    if p.verdict == Verdict::May {
        c.label("may be refused, is not");
    }
    valid(&h, "resolving")?;
    let left = leftovers(&h, h.entrypoint());
    ensure!(left.is_empty(), "left over", "operations left: {left:?}\n{}", show(&h));
    let e = h.entrypoint();
    ensure!(e == p.main && h.signature(e) == p.h.signature(p.main), "interface", "the entry point changed");
    ensure!(super::c12::public(&h) == super::c12::public(&p.h), "interface", "the public functions change");
    same_meaning("resolving", &before.unwrap(), &h, e, &p.ins, &p.outs, &SimOpts::default())?;
    c.nontrivial = true;
    Ok(())
}

// ---- C19
/// One gate or phase under many controls.
fn gates(c: &mut Case) -> Res {
    let mut k = base(SMALL);
    k.ops = (1, 2);
    k.max_ctrl = c.src.range(1, 6);
    k.max_l = 3;
    let p = make(&mut c.src, &k, (1, 1), (0, 0), true, 0);
    go(c, p)
}
fn control(c: &mut Case) -> Res {
    let k = rich();
    let p = make(&mut c.src, &k, (1, 3), (0, 2), false, 1);
    go(c, p)
}
fn grouped(c: &mut Case) -> Res {
    let mut k = base(&[(W::Gate, 12), (W::Phase, 2), (W::Class, 1), (W::Dfg, 2), (W::Call, 4), (W::Cond, 1), (W::Mods, 2)]);
    k.max_ctrl = 4;
    k.max_l = 2;
    let p = make(&mut c.src, &k, (1, 2), (0, 1), true, 0);
    go(c, p)
}
pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "a program with a modified call that is resolved, or refused as it must be",
        assumptions: &["functions on qubits carry the \"unitary\" flags, as the front end writes them"],
        suites: vec![
            Suite { name: "gates", quick: 40000, thorough: 2000000, run: gates },
            Suite { name: "control", quick: 40000, thorough: 2000000, run: control },
            Suite { name: "grouped", quick: 30000, thorough: 2000000, run: grouped },
        ],
        hang_violation: None,
    }
}
// ---- C20
fn dag_gates(c: &mut Case) -> Res {
    let mut k = base(SMALL);
    k.ops = (1, 4);
    k.max_ctrl = 1;
    k.dagger = true;
    let p = make(&mut c.src, &k, (1, 1), (0, 0), true, 0);
    go(c, p)
}
fn dag(c: &mut Case) -> Res {
    let mut k = rich();
    k.dagger = true;
    k.max_ctrl = 1;
    let p = make(&mut c.src, &k, (1, 3), (0, 2), false, 1);
    go(c, p)
}
fn dag_ctrl(c: &mut Case) -> Res {
    let mut k = base(SMALL);
    k.ops = (1, 3);
    k.max_ctrl = c.src.range(1, 5);
    k.max_l = 3;
    k.dagger = true;
    let p = make(&mut c.src, &k, (1, 1), (0, 0), true, 0);
    go(c, p)
}
pub fn prop20() -> Prop {
    Prop {
        id: "C20",
        rule: "a program with a modified call that is resolved, or refused as it must be",
        assumptions: &["functions on qubits carry the \"unitary\" flags, as the front end writes them"],
        suites: vec![
            Suite { name: "gates", quick: 30000, thorough: 2000000, run: dag_gates },
            Suite { name: "adjoint", quick: 40000, thorough: 2000000, run: dag },
            Suite { name: "with-controls", quick: 30000, thorough: 2000000, run: dag_ctrl },
        ],
        hang_violation: None,
    }
}
// ---- C21
fn nested(c: &mut Case) -> Res {
    let mut k = rich().clone();
    k.w.push((W::Mods, 8));
    k.dagger = true;
    k.power = true;
    k.max_l = 2;
    k.max_ctrl = 2;
    let p = make(&mut c.src, &k, (1, 4), (0, 2), false, 1);
    go(c, p)
}
fn shared(c: &mut Case) -> Res {
    let mut k = base(&[(W::Gate, 8), (W::Phase, 2), (W::Class, 2), (W::Call, 8), (W::CallInd, 4), (W::Mods, 6), (W::Dfg, 3), (W::Cond, 2), (W::Loop, 1), (W::Measure, 1)]);
    k.dagger = true;
    k.max_l = 2;
    k.max_ctrl = 2;
    let p = make(&mut c.src, &k, (2, 4), (1, 4), false, 1);
    go(c, p)
}
pub fn prop21() -> Prop {
    Prop {
        id: "C21",
        rule: "a program with a modified call that is resolved, or refused as it must be",
        assumptions: &["functions on qubits carry the \"unitary\" flags, as the front end writes them"],
        suites: vec![Suite { name: "nested", quick: 50000, thorough: 3000000, run: nested }, Suite { name: "shared", quick: 50000, thorough: 3000000, run: shared }],
        hang_violation: None,
    }
}
