//! C13: borrow/return elision.
use super::c09::op_multiset;
use super::common::*;
use crate::ensure;
use crate::hb::*;
use crate::interp::*;
use crate::prog::*;
use crate::run::*;
use hugr::algorithms::const_fold::ConstantFoldPass;
use hugr::algorithms::ComposablePass;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{self, OpType};
use hugr::types::{Signature, Type, TypeRow};
use hugr::{Hugr, HugrView, Node};
use tket::passes::BorrowSquashPass;
use K::*;

fn is_bor(h: &Hugr, n: Node) -> Option<bool> {
    match h.get_optype(n) {
        OpType::ExtensionOp(e) => match e.qualified_id().to_string().as_str() {
            "collections.borrow_arr.borrow" => Some(true),
            "collections.borrow_arr.return" => Some(false),
            _ => None,
        },
        _ => None,
    }
}
fn judge(c: &mut Case, p: &Program) -> Res {
    must_validate(&p.h, "generated program");
    c.describe(|| show(&p.h));
    let o = SimOpts::default();
    let before = sim_before(&p.h, p.main, &p.ins, &p.outs, &o)?;
    let mut h = p.h.clone();
    if c.src.chance(1, 8) && catch(|| ConstantFoldPass::default().run(&mut h).is_ok()).unwrap_or(false) && h.validate().is_ok() {
        c.label("folded first");
        // the folding itself is not under test here
        if same_meaning("", &before, &h, p.main, &p.ins, &p.outs, &o).is_err() {
            return Err(Stop::Discard("hugr's constant folding changes it"));
        }
    } else {
        h = p.h.clone();
    }
    let count = |h: &Hugr| h.descendants(h.module_root()).filter(|n| is_bor(h, *n).is_some()).count();
    let (n0, ops0) = (count(&h), op_multiset(&h));
    let orig = h.clone();
    let mut pass = BorrowSquashPass::default();
    let mut regions = None;
    if c.src.chance(1, 4) {
        let rs: Vec<Node> = super::c01::dataflow_regions(&h).into_iter().filter(|_| c.src.flip()).collect();
        pass = pass.set_regions(rs.clone());
        regions = Some(rs);
    }
    let r = match no_panic("BorrowSquash", || pass.run(&mut h))? {
        Ok(r) => r,
        Err(e) => return fail("BorrowSquash: error", e.to_string()),
    };
    valid(&h, "BorrowSquash")?;
    ensure!(count(&h) + 2 * r.len() == n0, "BorrowSquash: count", "{} pairs reported, {} operations before, {} after", r.len(), n0, count(&h));
    let mut seen = std::collections::HashSet::new();
    for (ret, bor) in &r {
        ensure!(is_bor(&orig, *ret) == Some(false) && is_bor(&orig, *bor) == Some(true), "BorrowSquash: pair", "({ret}, {bor}) is not a return and a borrow");
        ensure!(seen.insert(*ret) && seen.insert(*bor), "BorrowSquash: pair twice", "({ret}, {bor})");
        ensure!(!h.contains_node(*ret) && !h.contains_node(*bor), "BorrowSquash: pair kept", "({ret}, {bor}) still exist");
        if let Some(rs) = &regions {
            ensure!(orig.get_parent(*ret).is_some_and(|p| rs.contains(&p)), "BorrowSquash: region", "{ret} is not in a selected region");
        }
    }
    let rest = |m: std::collections::BTreeMap<String, usize>| m.into_iter().filter(|(k, _)| !k.starts_with("collections.borrow_arr.borrow") && !k.starts_with("collections.borrow_arr.return")).collect::<Vec<_>>();
    ensure!(rest(op_multiset(&h)) == rest(ops0), "BorrowSquash: other operations", "changed");
    same_meaning("BorrowSquash", &before, &h, p.main, &p.ins, &p.outs, &o)?;
    c.nontrivial = !r.is_empty();
    if before.obs.contains_key("PANIC") {
        c.label("fails");
    }
    c.fingerprint(&show(&p.h));
    Ok(())
}

/// One array, a random history of borrows and returns.
struct Hist {
    n: u64,
    el: Type,
    /// (index, element) borrowed and not given back
    out: Vec<(u64, Wire)>,
    arr: Wire,
    last: Option<u64>,
}
fn step(g: &mut G, r: &mut Region, s: &mut Hist, bad: u64, idx_in: &Option<Wire>, depth: usize) {
    let a = [nat(s.n), ta(&s.el)];
    let index = |g: &mut G, r: &mut Region, i: u64| match idx_in {
        Some(w) if g.src.chance(1, 12) => w.clone(),
        _ => g.index(r, i),
    };
    match g.src.weighted(&[1, 7, 6, 3, 1, 1]) {
        1 => {
            let free: Vec<u64> = (0..s.n).filter(|i| !s.out.iter().any(|x| x.0 == *i)).collect();
            let i = if g.src.chance(1, bad) { g.src.below(s.n as usize + 1) as u64 } else if free.is_empty() { return } else if s.last.is_some_and(|l| free.contains(&l)) && g.src.chance(2, 3) { s.last.unwrap() } else { g.src.choose(&free) };
            let iw = index(g, r, i);
            let o = g.raw(r, xop("collections.borrow_arr", "borrow", &a), &[s.arr.clone(), iw]);
            s.arr = o[0].clone();
            s.out.push((i, o[1].clone()));
        }
        2 => {
            if s.out.is_empty() {
                return;
            }
            let k = g.src.below(s.out.len());
            let (mut i, mut e) = s.out.remove(k);
            // give another element back in its place
            if !s.out.is_empty() && g.src.chance(1, 5) {
                let k = g.src.below(s.out.len());
                std::mem::swap(&mut s.out[k].1, &mut e);
            }
            if g.src.chance(1, bad) {
                i = g.src.below(s.n as usize + 1) as u64;
            }
            s.last = Some(i);
            let iw = index(g, r, i);
            s.arr = g.raw(r, xop("collections.borrow_arr", "return", &a), &[s.arr.clone(), iw, e])[0].clone();
        }
        3 => {
            if s.out.is_empty() {
                return;
            }
            let k = g.src.below(s.out.len());
            let e = s.out[k].1.clone();
            if is_q(&s.el) {
                let nm = g.src.choose(&["H", "T", "X"]);
                s.out[k].1 = g.raw(r, q(nm), &[e])[0].clone();
            } else if let Some((_, m, el)) = arr_of(&s.el) {
                if depth < 2 {
                    let mut t = Hist { n: m, el, out: vec![], arr: e, last: None };
                    for _ in 0..g.src.range(1, 5) {
                        step(g, r, &mut t, bad, idx_in, depth + 1);
                    }
                    close(g, r, &mut t);
                    s.out[k].1 = t.arr;
                }
            } else if s.el == t_b() {
                s.out[k].1 = g.raw(r, xop("logic", "Not", &[]), &[e])[0].clone();
            }
        }
        4 => {
            if is_q(&s.el) && s.out.len() >= 2 {
                let (x, y) = (s.out[0].1.clone(), s.out[1].1.clone());
                let o = g.raw(r, q("CX"), &[x, y]);
                s.out[0].1 = o[0].clone();
                s.out[1].1 = o[1].clone();
            }
        }
        5 => {
            // an operation on the whole array
            if s.out.is_empty() {
                match g.src.below(3) {
                    0 => s.arr = g.raw(r, xop("prelude", "Noop", &[ta(&s.arr.t.clone())]), &[s.arr.clone()])[0].clone(),
                    1 => {
                        let w = g.raw(r, xop("collections.borrow_arr", "to_array", &a), &[s.arr.clone()]);
                        s.arr = g.raw(r, xop("collections.borrow_arr", "from_array", &a), &w)[0].clone();
                    }
                    _ => {
                        // inside a nested region
                        let t = s.arr.t.clone();
                        let n = g.h.add_node_with_parent(r.parent, ops::DFG { signature: sig(&[t.clone()], &[t.clone()]) });
                        let mut ir = new_region(&mut g.h, n, &[t.clone()], r.depth + 1);
                        let arr = ir.wires.remove(0);
                        let mut s2 = Hist { n: s.n, el: s.el.clone(), out: vec![], arr, last: None };
                        for _ in 0..g.src.range(0, 5) {
                            step(g, &mut ir, &mut s2, bad, &None, depth);
                        }
                        close(g, &mut ir, &mut s2);
                        set_outputs(&mut g.h, &ir, &[s2.arr]);
                        let save = std::mem::take(&mut r.wires);
                        s.arr = g.attach(r, n, &[s.arr.clone()])[0].clone();
                        r.wires = save;
                    }
                }
            }
        }
        _ => {}
    }
}
fn close(g: &mut G, r: &mut Region, s: &mut Hist) {
    let a = [nat(s.n), ta(&s.el)];
    while !s.out.is_empty() {
        let k = g.src.below(s.out.len());
        let (i, e) = s.out.remove(k);
        if e.t.copyable() && g.src.chance(1, 10) {
            continue;
        }
        let iw = g.index(r, i);
        s.arr = g.raw(r, xop("collections.borrow_arr", "return", &a), &[s.arr.clone(), iw, e])[0].clone();
    }
}
fn history(c: &mut Case) -> Res {
    let mut cfg = Cfg::new(&[(G1, 1)]);
    cfg.const_away = true;
    let n = c.src.range(1, 3) as u64;
    let el = match c.src.below(5) {
        0 | 1 => t_q(),
        2 => t_b(),
        3 => t_arr(AK::Borrow, 2, t_q()),
        _ => t_arr(AK::Borrow, 2, t_b()),
    };
    let bad = c.src.choose(&[1000u64, 1000, 12]);
    let with_idx = c.src.chance(1, 3);
    let two = c.src.chance(1, 4);
    let steps = c.src.range(1, 20);
    let t = t_arr(AK::Borrow, n, el.clone());
    let mut ins = vec![t.clone()];
    if two {
        ins.push(t.clone());
    }
    if with_idx {
        ins.push(t_u());
    }
    let mut g = G::new(&mut c.src, cfg);
    let root = g.h.module_root();
    let f = g.h.add_node_with_parent(root, ops::FuncDefn::new_vis("main", Signature::new(row(&ins), TypeRow::new()), hugr_core::Visibility::Public));
    g.cur_func = Some(f);
    let mut r = new_region(&mut g.h, f, &ins, 0);
    let mut ws = std::mem::take(&mut r.wires);
    let idx = if with_idx { ws.pop() } else { None };
    let mut hs: Vec<Hist> = ws.into_iter().map(|w| Hist { n, el: el.clone(), out: vec![], arr: w, last: None }).collect();
    for _ in 0..steps {
        let k = g.src.below(hs.len());
        let mut s = hs.remove(k);
        step(&mut g, &mut r, &mut s, bad, &idx, 0);
        hs.insert(k, s);
    }
    // elements may be returned to the other array
    if hs.len() == 2 && g.src.chance(1, 4) && !hs[0].out.is_empty() && !hs[1].out.is_empty() {
        let e = hs[0].out[0].1.clone();
        hs[0].out[0].1 = hs[1].out[0].1.clone();
        hs[1].out[0].1 = e;
    }
    let mut outs = vec![];
    for s in hs.iter_mut() {
        close(&mut g, &mut r, s);
        outs.push(s.arr.clone());
    }
    set_outputs(&mut g.h, &r, &outs);
    let ts: Vec<Type> = outs.iter().map(|w| w.t.clone()).collect();
    set_op(&mut g.h, f, ops::FuncDefn::new_vis("main", Signature::new(row(&ins), row(&ts)), hugr_core::Visibility::Public));
    let mut h = std::mem::take(&mut g.h);
    drop(g);
    h.set_entrypoint(f);
    h.use_extensions(REG.iter().cloned().collect::<Vec<_>>());
    let p = Program { h, main: f, ins, outs: ts, feats: Default::default(), events: 0, measures: 0, n_ops: 0 };
    judge(c, &p)
}
fn mixed(c: &mut Case) -> Res {
    let mut k = Cfg::new(&[(G1, 3), (G2, 3)]).with(&[(Arr, 3), (ArrOp, 2), (Bor, 30), (Int, 1), (Log, 1), (Dfg, 2), (Cond, 2), (Loop, 1), (CfgN, 1), (Call, 1), (Meas, 1), (Tup, 1), (Untup, 1), (Const, 1), (Order, 1), (ResOp, 1)]);
    k.ins = vec![(t_q(), 2), (t_b(), 1), (t_u(), 1), (t_arr(AK::Borrow, 2, t_q()), 3), (t_arr(AK::Borrow, 3, t_b()), 3), (t_arr(AK::Borrow, 2, t_arr(AK::Borrow, 1, t_q())), 1)];
    k.arr_kinds = vec![AK::Borrow];
    k.ops = (1, 12);
    k.funcs = 1;
    k.max_qubits = 6;
    k.out_copy = 3;
    k.const_away = true;
    k.panics = c.src.chance(1, 3);
    let p = program(&mut c.src, &k);
    label_feats(c, &p);
    judge(c, &p)
}
pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "at least one pair is elided",
        assumptions: &[],
        suites: vec![Suite { name: "history", quick: 300000, thorough: 6000000, run: history }, Suite { name: "mixed", quick: 50000, thorough: 2000000, run: mixed }],
        hang_violation: None,
    }
}
