//! C17: stored rewriters, matchers and equivalence classes.
use super::c04::canon;
use super::c15::{op_name, rules, setup, Setup};
use super::common::*;
use crate::ensure;
use crate::flat::*;
use crate::gen::Src;
use crate::hb::*;
use crate::run::*;
use hugr::{Hugr, HugrView, Node};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use tket::optimiser::badger::{load_eccs_json_file, EqCircClass};
use tket::portmatching::{CircuitPattern, PatternMatch, PatternMatcher};
use tket::rewrite::{ECCRewriter, Rewriter};
use tket::Circuit;

/// A directory of this case, removed at the end.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("verif-c17-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
type View = Vec<(Vec<Node>, String, String)>;
fn view(rw: &ECCRewriter, h: &Hugr) -> Res<View> {
    let circ = Circuit::new(h.clone());
    let rws = no_panic("get_rewrites", || rw.get_rewrites(&circ))?;
    let mut v: View = rws
        .iter()
        .map(|r| {
            let g = r.subgraph();
            (g.nodes().to_vec(), format!("{:?} {:?} {}", g.incoming_ports(), g.outgoing_ports(), r.node_count_delta()), format!("{} valid {}", canon(r.replacement().hugr()), r.replacement().hugr().validate().is_ok()))
        })
        .map(|mut x| {
            x.0.sort();
            x
        })
        .collect();
    v.sort();
    Ok(v)
}
fn differ(what: &str, a: &View, b: &View) -> Res {
    if a == b {
        return Ok(());
    }
    let (x, y): (Vec<_>, Vec<_>) = (a.iter().filter(|r| !b.contains(r)).take(2).collect(), b.iter().filter(|r| !a.contains(r)).take(2).collect());
    fail(what, format!("{} and {} rewrites\nonly before {x:#?}\nonly after {y:#?}", a.len(), b.len()))
}
fn save(rw: &ECCRewriter) -> Res<Vec<u8>> {
    let mut b = vec![];
    match no_panic("save_binary_io", || rw.save_binary_io(&mut b))? {
        Ok(()) => Ok(b),
        Err(e) => fail("rewriter: saving", e.to_string()),
    }
}
fn rewriter(c: &mut Case) -> Res {
    let s = setup(c, 5, 12);
    let eccs = s.rules.eccs.clone();
    let rw = no_panic("ECCRewriter::from_eccs", || ECCRewriter::from_eccs(eccs))?;
    let a = view(&rw, &s.h)?;
    let b = if c.src.chance(1, 4) {
        c.label("file");
        let d = Dir::new();
        let ext = c.src.choose(&["", ".rwr", ".json", ".a.b"]);
        let name = d.0.join(format!("rules{ext}"));
        let at = match no_panic("save_binary", || rw.save_binary(&name))? {
            Ok(p) => p,
            Err(e) => return fail("rewriter: saving to a file", e.to_string()),
        };
        ensure!(at.extension().is_some_and(|e| e == "rwr") && at.is_file(), "rewriter: file name", "{at:?}");
        let r = no_panic("load_binary", || ECCRewriter::load_binary(&at))?;
        r.map_err(|e| e.to_string())
    } else {
        let mut b = save(&rw)?;
        if c.src.chance(1, 4) {
            c.label("twice");
            match no_panic("load_binary_io", || ECCRewriter::load_binary_io(b.as_slice()))? {
                Ok(r) => b = save(&r)?,
                Err(e) => return fail("rewriter: loading what was saved", e.to_string()),
            }
        }
        no_panic("load_binary_io", || ECCRewriter::load_binary_io(b.as_slice()))?.map_err(|e| e.to_string())
    };
    let again = match b {
        Ok(r) => r,
        Err(e) => return fail("rewriter: loading what was saved", e),
    };
    differ("rewriter: different after loading", &a, &view(&again, &s.h)?)?;
    // on other circuits as well
    let f = crate::ecc::circuit(&mut c.src, s.k, &s.rules.classes, 3, 8);
    let h = f.build(0).0;
    differ("rewriter: different after loading", &view(&rw, &h)?, &view(&again, &h)?)?;
    c.nontrivial = a.len() > 1;
    Ok(())
}
fn matcher(c: &mut Case) -> Res {
    let k = c.src.choose(&[Kind::Clifford, Kind::Rot, Kind::Classical, Kind::All]);
    let (nq, most) = (c.src.range(1, 4), c.src.range(2, 12));
    let f = flat(&mut c.src, k, nq, most);
    let (h, _) = f.build(c.src.below(4));
    let n = c.src.range(1, 6);
    let mut pats = vec![];
    let mut shown = vec![];
    for _ in 0..n {
        let p = super::c14::pattern(&mut c.src, k, &f);
        let ph = Circuit::new(p.build(c.src.below(4)).0);
        if let Ok(x) = CircuitPattern::try_from_circuit(&ph) {
            pats.push(x);
            shown.push(p);
        }
    }
    c.describe(|| format!("circuit {f:?}\npatterns {shown:?}"));
    c.fingerprint(&format!("{f:?}{shown:?}"));
    let m = no_panic("from_patterns", || PatternMatcher::from_patterns(pats))?;
    let d = Dir::new();
    let ext = c.src.choose(&["", ".bin", ".x"]);
    let at = match no_panic("save_binary", || m.save_binary(d.0.join(format!("m{ext}"))))? {
        Ok(p) => p,
        Err(e) => return fail("matcher: saving", e.to_string()),
    };
    ensure!(at.extension().is_some_and(|e| e == "bin") && at.is_file(), "matcher: file name", "{at:?}");
    let again = match no_panic("load_binary", || PatternMatcher::load_binary(&at))? {
        Ok(m) => m,
        Err(e) => return fail("matcher: loading what was saved", e.to_string()),
    };
    ensure!(again.n_patterns() == m.n_patterns(), "matcher: number of patterns", "{}", again.n_patterns());
    let circ = Circuit::new(h);
    let list = |ms: Vec<PatternMatch>| {
        let mut v: Vec<String> = ms.iter().map(|m| format!("{:?} {:?} {:?} {:?}", m.pattern_id(), m.root(), m.subgraph().incoming_ports(), m.subgraph().outgoing_ports())).collect();
        v.sort();
        v
    };
    let a = list(no_panic("find_matches", || m.find_matches(&circ))?);
    let b = list(no_panic("find_matches", || again.find_matches(&circ))?);
    ensure!(a == b, "matcher: different after loading", "{a:?}\n{b:?}");
    c.nontrivial = a.len() > 1;
    Ok(())
}
/// The operations of a circuit as terms over its inputs: the outputs' terms and all terms.
fn terms(h: &Hugr, table: &mut BTreeMap<String, usize>) -> (Vec<usize>, Vec<usize>) {
    let circ = Circuit::new(h.clone());
    let [i, o] = circ.io_nodes();
    let mut at: BTreeMap<Node, usize> = BTreeMap::new();
    let mut intern = |s: String| {
        let n = table.len();
        *table.entry(s).or_insert(n)
    };
    at.insert(i, intern("input".into()));
    let mut all = vec![];
    let mut todo: Vec<Node> = h.children(circ.parent()).filter(|n| *n != i).collect();
    let arg = |at: &BTreeMap<Node, usize>, n: Node| -> Option<Vec<(usize, usize)>> {
        use hugr::PortIndex;
        h.node_inputs(n).map(|p| h.single_linked_output(n, p)).filter_map(|x| x).map(|(m, p)| Some((*at.get(&m)?, p.index()))).collect()
    };
    let mut out = vec![];
    while !todo.is_empty() {
        let n0 = todo.len();
        todo.retain(|n| match arg(&at, *n) {
            None => true,
            Some(a) => {
                if *n == o {
                    out = a.iter().map(|(t, p)| t * 16 + p).collect();
                } else {
                    let t = intern(format!("{} {a:?}", op_name(h.get_optype(*n))));
                    at.insert(*n, t);
                    all.push(t);
                }
                false
            }
        });
        assert!(todo.len() < n0, "cycle");
    }
    all.sort();
    (out, all)
}
type Shown = (Vec<usize>, Vec<usize>);
fn classes_view(eccs: &[EqCircClass], table: &mut BTreeMap<String, usize>) -> Vec<(Shown, Vec<Shown>)> {
    eccs.iter()
        .map(|e| {
            let mut o: Vec<Shown> = e.others().iter().map(|h| terms(h, table)).collect();
            o.sort();
            (terms(e.rep_circ(), table), o)
        })
        .collect()
}
fn classes(c: &mut Case) -> Res {
    let s: Setup = setup(c, 4, 10);
    let text = match no_panic("class to JSON", || serde_json::to_string(&s.rules.eccs))? {
        Ok(t) => t,
        Err(e) => return fail("classes: writing", e.to_string()),
    };
    let again: Vec<EqCircClass> = match no_panic("class from JSON", || serde_json::from_str(&text))? {
        Ok(t) => t,
        Err(e) => return fail("classes: reading what was written", e.to_string()),
    };
    ensure!(again.len() == s.rules.eccs.len(), "classes: number", "{}", again.len());
    for (a, b) in s.rules.eccs.iter().zip(&again) {
        ensure!(a.n_circuits() == b.n_circuits(), "classes: number of circuits", "{} and {}", a.n_circuits(), b.n_circuits());
        for (x, y) in a.circuits().zip(b.circuits()) {
            valid(y, "class read back")?;
            ensure!(canon(x) == canon(y), "classes: a circuit changed", "{}\n{}", show(x), show(y));
        }
        let mut all = vec![canon(b.rep_circ())];
        all.extend(b.others().iter().map(canon));
        ensure!(all == b.circuits().map(canon).collect::<Vec<_>>(), "classes: circuits", "not the representative and the others");
        ensure!(all.len() == b.n_circuits(), "classes: number of circuits", "{} and {}", all.len(), b.n_circuits());
        ensure!(all == b.clone().into_circuits().map(|h| canon(&h)).collect::<Vec<_>>(), "classes: circuits taken out", "others than those in it");
    }
    let eccs = s.rules.eccs.clone();
    let a = no_panic("ECCRewriter::from_eccs", || ECCRewriter::from_eccs(eccs))?;
    let b = no_panic("ECCRewriter::from_eccs", || ECCRewriter::from_eccs(again))?;
    let v = view(&a, &s.h)?;
    differ("classes: other rewrites after reading", &v, &view(&b, &s.h)?)?;
    c.nontrivial = v.len() > 1;
    Ok(())
}
/// One circuit in the Quartz format, and what it has to become.
fn quartz_circ(src: &mut Src, nq: usize, np: usize) -> (J, Flat) {
    let mut f = Flat::default();
    let mut q: Vec<usize> = (0..nq).map(|_| f.input(t_q())).collect();
    let mut p: Vec<usize> = (0..np).map(|_| f.input(t_r())).collect();
    let mut gates = vec![];
    let names = [("h", "H"), ("t", "T"), ("s", "S"), ("v", "V"), ("x", "X"), ("y", "Y"), ("z", "Z"), ("tdg", "Tdg"), ("sdg", "Sdg"), ("vdg", "Vdg")];
    for _ in 0..src.range(0, 6) {
        let qn = |i: usize| format!("Q{i}");
        match src.below(4) {
            0 if nq > 1 => {
                let a = src.below(nq);
                let b = (a + 1 + src.below(nq - 1)) % nq;
                gates.push(json!(["cx", [qn(a), qn(b)], [qn(a), qn(b)]]));
                let o = f.op(crate::hb::q("CX"), &[q[a], q[b]]);
                (q[a], q[b]) = (o[0], o[1]);
            }
            1 if !p.is_empty() => {
                let (a, k) = (src.below(nq), src.below(p.len()));
                gates.push(json!(["rz", [qn(a)], [qn(a), format!("P{k}")]]));
                q[a] = f.op(crate::hb::q("Rz"), &[q[a], p[k]])[0];
            }
            2 if !p.is_empty() => {
                let (a, b) = (src.below(p.len()), src.below(p.len()));
                // a new parameter, or one that replaces another
                let k = if src.chance(1, 5) { src.below(p.len()) } else { p.len() };
                gates.push(json!(["add", [format!("P{k}")], [format!("P{a}"), format!("P{b}")]]));
                let w = f.op(xop("tket.rotation", "radd", &[]), &[p[a], p[b]])[0];
                if k == p.len() {
                    p.push(w);
                } else {
                    p[k] = w;
                }
            }
            _ => {
                let a = src.below(nq);
                let (s, t) = src.choose(&names);
                gates.push(json!([s, [qn(a)], [qn(a)]]));
                q[a] = f.op(crate::hb::q(t), &[q[a]])[0];
            }
        }
    }
    f.outs = q;
    (J::Array(gates), f)
}
pub fn quartz_file(src: &mut Src) -> (J, Vec<Vec<Flat>>) {
    let mut map = serde_json::Map::new();
    let mut all = vec![];
    for k in 0..src.range(1, 4) {
        let (nq, np) = (src.range(1, 4), src.below(4));
        let mut v = vec![];
        let mut fs = vec![];
        for j in 0..src.range(1, 4) {
            let (g, f) = quartz_circ(src, nq, np);
            let n = g.as_array().unwrap().len();
            let extra = src.below(3);
            v.push(json!([[nq, np, np + extra, n, [format!("id{k}_{j}")], [0.25, -1e-3]], g]));
            fs.push(f);
        }
        map.insert(format!("{k}_{}", src.below(4)), J::Array(v));
        all.push(fs);
    }
    (json!([[], map]), all)
}
pub fn write(d: &Dir, t: &[u8]) -> PathBuf {
    let p = d.0.join("eccs.json");
    std::fs::write(&p, t).unwrap();
    p
}
fn quartz(c: &mut Case) -> Res {
    let (j, want) = quartz_file(&mut c.src);
    let d = Dir::new();
    let text = if c.src.flip() { serde_json::to_string_pretty(&j).unwrap() } else { j.to_string() };
    c.describe(|| text.clone());
    c.fingerprint(&text);
    let at = write(&d, text.as_bytes());
    let got = match no_panic("load_eccs_json_file", || load_eccs_json_file(&at))? {
        Ok(x) => x,
        Err(e) => return fail("quartz: a valid file is rejected", e.to_string()),
    };
    let mut table = BTreeMap::new();
    for e in &got {
        for h in e.circuits() {
            valid(h, "quartz circuit")?;
        }
        let n = |h: &Hugr| Circuit::new(h.clone()).num_operations();
        let r = n(e.rep_circ());
        ensure!(e.others().iter().all(|h| n(h) >= r), "quartz: representative", "not the smallest circuit");
    }
    let flat_set = |v: Vec<(Shown, Vec<Shown>)>| {
        let mut v: Vec<Vec<Shown>> = v
            .into_iter()
            .map(|(r, mut o)| {
                o.push(r);
                o.sort();
                o
            })
            .collect();
        v.sort();
        v
    };
    let a = flat_set(classes_view(&got, &mut table));
    let mut b: Vec<Vec<Shown>> = want
        .iter()
        .map(|fs| {
            let mut v: Vec<Shown> = fs.iter().map(|f| terms(&f.build(0).0, &mut table)).collect();
            v.sort();
            v
        })
        .collect();
    b.sort();
    ensure!(a == b, "quartz: other circuits", "{a:?}\n{b:?}\n{table:#?}");
    c.nontrivial = want.iter().map(|w| w.len()).sum::<usize>() > 2;
    Ok(())
}
fn hurt(src: &mut Src, b: &mut Vec<u8>, what: &mut Vec<String>) {
    if b.is_empty() {
        return;
    }
    let i = if src.chance(1, 6) { src.below(b.len().min(16)) } else { src.below(b.len()) };
    match src.below(7) {
        0 => {
            b.truncate(i);
            what.push(format!("truncate at {i}"));
        }
        1 => {
            let k = src.below(8);
            b[i] ^= 1 << k;
            what.push(format!("flip bit {k} of {i}"));
        }
        2 => {
            b[i] = src.below(256) as u8;
            what.push(format!("set {i} to {}", b[i]));
        }
        3 => {
            let l = src.range(1, 8).min(b.len() - i);
            b.drain(i..i + l);
            what.push(format!("remove {l} at {i}"));
        }
        4 => {
            let l = src.range(1, 20).min(b.len() - i);
            let x = b[i..i + l].to_vec();
            b.splice(i..i, x);
            what.push(format!("repeat {l} at {i}"));
        }
        5 => {
            if let Some(j) = (i..b.len()).find(|j| b[*j].is_ascii_digit()) {
                b[j] = b'0' + src.below(10) as u8;
                what.push(format!("digit at {j}"));
            }
        }
        _ => {
            if let Some(j) = (i..b.len()).find(|j| b[*j].is_ascii_alphabetic()) {
                b[j] = src.choose(b"abhqrstvxyzHQPX");
                what.push(format!("letter at {j}"));
            }
        }
    }
}
fn ours(r: Res) -> Res {
    match r {
        // panics in the readers of hugr and portmatching on damaged data
        Err(Stop::Fail { sig, .. }) if sig.contains("panic@") && !sig.contains("panic@tket") => Err(Stop::Discard("a dependency panics")),
        r => r,
    }
}
/// Binary files that were cut or changed.
fn damaged(c: &mut Case) -> Res {
    let k = c.src.choose(&[Kind::Clifford, Kind::Rot, Kind::Classical]);
    let rs = rules(&mut c.src, k, 2, 3);
    let rw = no_panic("ECCRewriter::from_eccs", || ECCRewriter::from_eccs(rs.eccs.clone()))?;
    let good = save(&rw)?;
    let mut what = vec![];
    c.describe(|| format!("{:?}", rs.classes));
    // cut anywhere
    let i = c.src.below(good.len());
    let r = no_panic("load_binary_io", || ECCRewriter::load_binary_io(&good[..i]))?;
    ensure!(r.is_err(), "rewriter: a truncated file is accepted", "{i} of {} bytes", good.len());
    let m = good.clone();
    let mut b = if c.src.flip() {
        what.push("inside the compressed data".to_string());
        zstd::decode_all(m.as_slice()).unwrap()
    } else {
        m
    };
    let inside = !what.is_empty();
    if inside {
        let i = c.src.below(b.len());
        let z = zstd::encode_all(&b[..i], 1).unwrap();
        let r = no_panic("load_binary_io", || ECCRewriter::load_binary_io(z.as_slice()))?;
        ensure!(r.is_err(), "rewriter: truncated data is accepted", "{i} of {} bytes", b.len());
    }
    for _ in 0..c.src.range(1, 3) {
        hurt(&mut c.src, &mut b, &mut what);
    }
    if inside {
        b = zstd::encode_all(b.as_slice(), 1).unwrap();
    }
    c.describe(|| format!("{what:?}"));
    c.fingerprint(&format!("{what:?}{:?}", rs.classes));
    let r = no_panic("load_binary_io", || ECCRewriter::load_binary_io(b.as_slice()).map(|_| ()));
    c.nontrivial = true;
    match r {
        Ok(r) => {
            c.label(if r.is_ok() { "rewriter still loads" } else { "rewriter rejected" });
        }
        Err(e) => ours(Err(e))?,
    }
    // the matcher on its own
    let pats: Vec<CircuitPattern> = rs.eccs.iter().flat_map(|e| e.circuits()).filter_map(|h| CircuitPattern::try_from_circuit(&Circuit::new(h.clone())).ok()).collect();
    let m = PatternMatcher::from_patterns(pats);
    let mut b = vec![];
    if m.save_binary_io(&mut b).is_err() {
        return fail("matcher: saving", "");
    }
    let i = c.src.below(b.len());
    let r = no_panic("load_binary_io", || PatternMatcher::load_binary_io(&mut &b[..i]).map(|_| ()))?;
    ensure!(r.is_err(), "matcher: truncated data is accepted", "{i} of {} bytes", b.len());
    let mut what = vec![];
    for _ in 0..c.src.range(1, 3) {
        hurt(&mut c.src, &mut b, &mut what);
    }
    c.describe(|| format!("matcher {what:?}"));
    match no_panic("PatternMatcher::load_binary_io", || PatternMatcher::load_binary_io(&mut b.as_slice()).map(|_| ())) {
        Ok(r) => {
            c.label(if r.is_ok() { "matcher still loads" } else { "matcher rejected" });
        }
        Err(e) => ours(Err(e))?,
    }
    Ok(())
}
/// Text files that were cut or changed, or that never made sense.
fn damaged_text(c: &mut Case) -> Res {
    let d = Dir::new();
    c.nontrivial = true;
    if c.src.chance(1, 3) {
        let k = c.src.choose(&[Kind::Clifford, Kind::Rot, Kind::Classical]);
        let rs = rules(&mut c.src, k, 1, 3);
        let mut b = serde_json::to_vec(&rs.eccs).unwrap();
        let i = c.src.below(b.len());
        let r = no_panic("class from JSON", || serde_json::from_slice::<Vec<EqCircClass>>(&b[..i]).map(|_| ()))?;
        ensure!(r.is_err(), "classes: truncated data is accepted", "{i} of {} bytes", b.len());
        let mut what = vec![];
        for _ in 0..c.src.range(1, 3) {
            hurt(&mut c.src, &mut b, &mut what);
        }
        c.describe(|| format!("{:?} {what:?}", rs.classes));
        c.fingerprint(&format!("{:?} {what:?}", rs.classes));
        c.label("classes");
        return ours(no_panic("class from JSON", || serde_json::from_slice::<Vec<EqCircClass>>(&b).is_ok()).map(|_| ()));
    }
    let (mut j, _) = quartz_file(&mut c.src);
    let text = if c.src.flip() {
        let mut b = j.to_string().into_bytes();
        let mut what = vec![];
        for _ in 0..c.src.range(1, 3) {
            hurt(&mut c.src, &mut b, &mut what);
        }
        c.label("quartz, bytes");
        b
    } else {
        // a mistake that makes no sense whatever the reader does
        let m = j[1].as_object_mut().unwrap();
        let keys: Vec<String> = m.keys().cloned().collect();
        let k = c.src.choose(&keys);
        let v = m.get_mut(&k).unwrap();
        let n = v.as_array().unwrap().len();
        let i = c.src.below(n);
        let (bad, must) = match c.src.below(9) {
            0 => {
                *v = json!([]);
                ("no circuits", true)
            }
            1 => {
                let op = c.src.choose(&["ccx", "", "H", "u3"]);
                v[i][1].as_array_mut().unwrap().push(json!([op, ["Q0"], ["Q0"]]));
                ("unknown operation", true)
            }
            2 => {
                let q = c.src.choose(&["Q9", "P9", "q0", ""]);
                v[i][1].as_array_mut().unwrap().push(json!(["h", [q], [q]]));
                ("unknown unit", true)
            }
            3 => {
                v[i][1].as_array_mut().unwrap().push(json!(["cx", ["Q0", "Q0"], ["Q0", "Q0"]]));
                ("a qubit twice", true)
            }
            4 => {
                v[i][1].as_array_mut().unwrap().push(json!(["cx", ["Q0"], ["Q0"]]));
                ("too few units", true)
            }
            5 => {
                v[i][0][4] = json!([]);
                ("no identifier", false)
            }
            6 => {
                v[i][0][0] = c.src.choose(&[json!(-1), json!("2"), json!(null), json!(1.5)]);
                ("number of qubits", true)
            }
            7 => {
                v[i] = json!([v[i][0]]);
                ("no circuit", true)
            }
            _ => {
                v[i][1].as_array_mut().unwrap().push(json!(["rz", ["Q0"], ["Q0", "Q0"]]));
                ("a qubit for a parameter", true)
            }
        };
        c.label(format!("quartz, {bad}"));
        let text = j.to_string();
        let at = write(&d, text.as_bytes());
        c.describe(|| text.clone());
        c.fingerprint(&text);
        let r = no_panic("load_eccs_json_file", || load_eccs_json_file(&at).map(|_| ()))?;
        ensure!(!must || r.is_err(), "quartz: a senseless file is accepted", "{bad}");
        let r = no_panic("try_from_eccs_json_file", || ECCRewriter::try_from_eccs_json_file(&at).map(|_| ()))?;
        ensure!(!must || r.is_err(), "quartz: a senseless file is accepted", "{bad}");
        return Ok(());
    };
    c.describe(|| String::from_utf8_lossy(&text).into_owned());
    c.fingerprint(&text);
    // sizes that would only exhaust the memory
    if String::from_utf8_lossy(&text).split(|x: char| !x.is_ascii_digit()).any(|x| x.len() > 3 && x.parse::<f64>().is_ok_and(|x| x > 2000.0)) {
        return Err(Stop::Discard("a huge number"));
    }
    let at = write(&d, &text);
    let r = no_panic("load_eccs_json_file", || load_eccs_json_file(&at))?;
    if let Ok(v) = r {
        c.label("still loads");
        for e in &v {
            for h in e.circuits() {
                valid(h, "quartz circuit")?;
            }
        }
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "several rewrites or matches to compare; damaged data",
        assumptions: &["panics inside the dependencies' own readers (hugr, portmatching) on damaged data are not counted", "damaged data that still reads may give any value"],
        suites: vec![
            Suite { name: "rewriter", quick: 6000, thorough: 400000, run: rewriter },
            Suite { name: "matcher", quick: 20000, thorough: 1000000, run: matcher },
            Suite { name: "classes", quick: 8000, thorough: 400000, run: classes },
            Suite { name: "quartz", quick: 20000, thorough: 1000000, run: quartz },
            Suite { name: "damaged", quick: 20000, thorough: 1000000, run: damaged },
            Suite { name: "damaged-text", quick: 20000, thorough: 1000000, run: damaged_text },
        ],
        hang_violation: Some(30),
    }
}
