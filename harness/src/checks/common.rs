//! Helpers shared by the checks.
use crate::hb::*;
use crate::interp::*;
use crate::prog::Program;
use crate::run::*;
use hugr::types::Type;
use hugr::{Hugr, HugrView, Node};

/// A generated program must validate; otherwise the generator is wrong.
pub fn must_validate(h: &Hugr, what: &str) {
    if let Err(e) = h.validate() {
        panic!("{what} is invalid: {e}\n{}", show(h));
    }
}
pub fn valid(h: &Hugr, what: &str) -> Res {
    match catch(|| h.validate()) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail(format!("{what}: invalid HUGR: {}", kind_of(&format!("{e:?}"))), format!("{what} gives an invalid HUGR: {e}\n{}", show(h))),
        Err(p) => fail(format!("{what}: validation panics"), format!("{} {}\n{}", p.0, p.1, show(h))),
    }
}
pub fn kind_of(s: &str) -> String {
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}
/// Simulates; programs outside the interpreter's range are discarded.
pub fn sim_before(h: &Hugr, entry: Node, ins: &[Type], outs: &[Type], o: &SimOpts) -> Res<Summary> {
    match simulate(h, entry, ins, outs, o) {
        Ok(s) => Ok(s),
        Err(SimErr::Unsupported(s)) => {
            if std::env::var_os("VERIF_UNSUP").is_some() {
                eprintln!("unsupported: {s}");
            }
            Err(Stop::Discard(if s.contains("paths") || s.contains("steps") || s.contains("qubits") { "too large to simulate" } else { "not simulable" }))
        }
        Err(SimErr::Bad(s)) => panic!("generated program is ill-formed: {s}\n{}", show(h)),
    }
}
pub fn same_meaning(what: &str, before: &Summary, h: &Hugr, entry: Node, ins: &[Type], outs: &[Type], o: &SimOpts) -> Res {
    let mut o2 = o.clone();
    o2.max_paths *= 4;
    o2.max_steps *= 8;
    o2.max_qubits += 2;
    match simulate(h, entry, ins, outs, &o2) {
        Ok(s) => match compare(before, &s) {
            Ok(()) => Ok(()),
            Err(e) => fail(format!("{what}: different behaviour"), format!("{what} changes behaviour: {e}\nafter:\n{}", show(h))),
        },
        Err(SimErr::Unsupported(s)) => {
            if std::env::var_os("VERIF_UNSUP").is_some() {
                eprintln!("unsupported after: {s}");
            }
            Err(Stop::Discard("result not simulable"))
        }
        Err(SimErr::Bad(s)) => fail(format!("{what}: ill-formed result"), format!("{what}: the result cannot run: {s}\n{}", show(h))),
    }
}
pub fn label_feats(c: &mut Case, p: &Program) {
    for k in &p.feats {
        c.label(format!("{k:?}"));
    }
}
