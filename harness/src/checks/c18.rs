//! C18: the backtracking optimiser and its bounded queue, against a model of both.
use crate::ensure;
use crate::run::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashSet};
use std::io::Write;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use tket::optimiser::{BacktrackingOptimiser, BadgerLogger, Optimiser, OptimiserOptions, State};

/// A search space: costs, hashes and successors of numbered states.
#[derive(Debug, Clone)]
struct Space {
    cost: Vec<Option<(usize, usize)>>,
    hash: Vec<Option<u64>>,
    next: Vec<Vec<usize>>,
    /// successors that only appear from the n-th visit of any state on
    late: Vec<(usize, usize, usize)>,
}
struct Ctx {
    space: Rc<Space>,
    visits: Rc<RefCell<Vec<usize>>>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Cost((usize, usize));
impl serde::Serialize for Cost {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("<{}-{}>", self.0 .0, self.0 .1))
    }
}
#[derive(Clone, Debug)]
struct St(usize);
impl State<Ctx> for St {
    type Cost = Cost;
    fn hash(&self, c: &Ctx) -> Option<u64> {
        c.space.hash[self.0]
    }
    fn cost(&self, c: &Ctx) -> Option<Cost> {
        c.space.cost[self.0].map(Cost)
    }
    fn next_states(&self, c: &mut Ctx) -> Vec<Self> {
        c.visits.borrow_mut().push(self.0);
        succ(&c.space, self.0, c.visits.borrow().len()).into_iter().map(St).collect()
    }
}
fn succ(s: &Space, i: usize, visits: usize) -> Vec<usize> {
    let mut v = s.next[i].clone();
    v.extend(s.late.iter().filter(|l| l.0 == i && visits >= l.1).map(|l| l.2));
    v
}
#[derive(Clone, Default)]
struct Buf(Arc<Mutex<Vec<u8>>>);
impl Write for Buf {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// What the search has to do: the queue keeps the cheapest entries that fit.
struct Model {
    visits: Vec<usize>,
    best: usize,
    logged: Vec<(usize, usize)>,
    /// everything that was ever accepted, by cost
    accepted: BTreeSet<((usize, usize), usize)>,
    evicted: bool,
}
fn model(s: &Space, start: usize, size: usize, max: Option<usize>) -> Option<Model> {
    let mut best = start;
    let mut m = Model { visits: vec![], best, logged: vec![s.cost[start]?], accepted: BTreeSet::new(), evicted: false };
    let mut q: BTreeSet<((usize, usize), usize)> = BTreeSet::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut push = |q: &mut BTreeSet<((usize, usize), usize)>, m: &mut Model, i: usize| -> bool {
        let (Some(h), Some(c)) = (s.hash[i], s.cost[i]) else { return false };
        if size == 0 || q.len() >= size && c >= q.last().unwrap().0 {
            m.evicted = true;
            return false;
        }
        if !seen.insert(h) {
            return false;
        }
        if q.len() >= size {
            m.evicted = true;
            q.pop_last();
        }
        q.insert((c, i));
        m.accepted.insert((c, i));
        true
    };
    if !push(&mut q, &mut m, start) {
        return None;
    }
    while let Some((c, i)) = q.pop_first() {
        if c < s.cost[best].unwrap() {
            best = i;
            m.logged.push(c);
        }
        m.visits.push(i);
        for j in succ(s, i, m.visits.len()) {
            push(&mut q, &mut m, j);
        }
        if max.is_some_and(|x| m.visits.len() >= x) {
            break;
        }
    }
    m.best = best;
    Some(m)
}
fn space(c: &mut Case, ties: bool) -> Space {
    let most = if c.src.chance(1, 6) { 60 } else { 12 };
    let n = c.src.range(1, most);
    let wide = c.src.chance(1, 3);
    let mut cost: Vec<Option<(usize, usize)>> = (0..n).map(|i| Some((c.src.below(if wide { 3 * n } else { 4 }), if ties { 0 } else { i }))).collect();
    if c.src.chance(1, 5) {
        let i = c.src.below(n);
        cost[i] = None;
    }
    let mut hash: Vec<Option<u64>> = (0..n as u64).map(|i| Some(i.wrapping_mul(0x9E3779B97F4A7C15))).collect();
    if c.src.chance(1, 5) {
        let i = c.src.below(n);
        hash[i] = None;
    }
    // states with the same hash are the same state for the search; give them the same cost, or not
    if c.src.chance(1, 4) {
        let (i, j) = (c.src.below(n), c.src.below(n));
        hash[i] = hash[j];
        c.label("same hash");
    }
    let deg = c.src.range(0, 4);
    let next = (0..n).map(|i| (0..c.src.range(0, deg + 1)).map(|_| if c.src.chance(1, 3) { (i + 1) % n } else { c.src.below(n) }).collect()).collect();
    let mut late = vec![];
    if c.src.chance(1, 3) {
        for _ in 0..c.src.range(1, 3) {
            late.push((c.src.below(n), c.src.range(1, 6), c.src.below(n)));
        }
    }
    Space { cost, hash, next, late }
}
struct Out {
    best: usize,
    n_best: Option<Vec<usize>>,
    visits: Vec<usize>,
    log: Vec<String>,
}
fn run(s: &Rc<Space>, opt: BacktrackingOptimiser, n_best: Option<usize>) -> Option<Out> {
    let visits = Rc::new(RefCell::new(vec![]));
    let buf = Buf::default();
    let mut o = OptimiserOptions::from(BadgerLogger::new(buf.clone()));
    o.track_n_best = n_best;
    let r = opt.optimise_with_options(St(0), Ctx { space: s.clone(), visits: visits.clone() }, o)?;
    let log = String::from_utf8(buf.0.lock().unwrap().clone()).unwrap();
    let v = visits.borrow().clone();
    Some(Out { best: r.best_state.0, n_best: r.n_best_states.map(|v| v.into_iter().map(|s| s.0).collect()), visits: v, log: log.lines().skip(1).map(|s| s.to_string()).collect() })
}
fn search(c: &mut Case) -> Res {
    search_with(c, false)
}
fn ties(c: &mut Case) -> Res {
    search_with(c, true)
}
fn search_with(c: &mut Case, ties: bool) -> Res {
    let s = Rc::new(space(c, ties));
    let n = s.cost.len();
    let size = match c.src.below(4) {
        0 => c.src.range(0, 3),
        1 => c.src.range(1, 6),
        2 => n + c.src.below(3),
        _ => 1000,
    };
    let max = if c.src.chance(1, 3) { Some(c.src.below(n + 3)) } else { None };
    let n_best = if c.src.flip() { Some(c.src.below(n + 3)) } else { None };
    let timeout = if c.src.chance(1, 6) { Some(1000) } else { None };
    c.describe(|| format!("{s:?}\nqueue {size}, max_visited {max:?}, n_best {n_best:?}"));
    let opt = BacktrackingOptimiser { queue_size: size, timeout, progress_timeout: timeout, max_visited_count: max };
    let got = no_panic("optimise", || run(&s, opt, n_best))?;
    let want = model(&s, 0, size, max);
    c.label(match (&want, size >= n) {
        (None, _) => "nothing",
        (_, true) => "unbounded",
        _ => "bounded",
    });
    let (Some(want), Some(got)) = (&want, &got) else {
        ensure!(want.is_none() == got.is_none(), "start state", "the search {}", if got.is_none() { "refuses the start state" } else { "accepts an invalid start state" });
        return Ok(());
    };
    c.nontrivial = want.visits.len() >= 3;
    c.fingerprint(&format!("{s:?}{size}{max:?}{n_best:?}"));
    if want.evicted {
        c.label("evictions");
    }
    // each state at most once
    let mut hs = HashSet::new();
    for v in &got.visits {
        ensure!(hs.insert(s.hash[*v]), "a state is explored twice", "state {v} in {:?}", got.visits);
    }
    let best = s.cost[got.best].ok_or("no cost");
    for v in &got.visits {
        ensure!(best <= s.cost[*v].ok_or("no cost"), "best state", "{:?} is returned although {v} of cost {:?} was visited", got.best, s.cost[*v]);
    }
    // reachable at all
    let mut reach = HashSet::from([0]);
    let mut todo = vec![0];
    while let Some(i) = todo.pop() {
        for j in s.next[i].iter().copied().chain(s.late.iter().filter(|l| l.0 == i).map(|l| l.2)) {
            if s.cost[j].is_some() && s.hash[j].is_some() && reach.insert(j) {
                todo.push(j);
            }
        }
    }
    for v in got.visits.iter().chain([&got.best]) {
        ensure!(reach.contains(v), "unreachable state", "{v} is not reachable from the start");
    }
    if max.is_none() && timeout.is_none() && size > n && s.late.is_empty() && s.hash.iter().flatten().count() == s.hash.iter().flatten().collect::<HashSet<_>>().len() {
        let opt = reach.iter().filter_map(|i| s.cost[*i]).min().unwrap();
        ensure!(s.cost[got.best] == Some(opt), "best state", "{:?} instead of {opt:?}", s.cost[got.best]);
    }
    ensure!(got.n_best.is_some() == n_best.is_some(), "n_best", "{:?} for {n_best:?}", got.n_best);
    if let (Some(k), Some(b)) = (n_best, &got.n_best) {
        let set: HashSet<_> = b.iter().collect();
        ensure!(set.len() == b.len(), "n_best", "repeated states {b:?}");
        ensure!(b.len() <= k, "n_best", "{} states instead of {k}", b.len());
        ensure!(b.windows(2).all(|w| s.cost[w[0]] <= s.cost[w[1]]), "n_best", "not in order: {b:?}");
    }
    if ties {
        // which of several equal states is dropped is not specified
        return Ok(());
    }
    ensure!(got.visits == want.visits, "order of the search", "{:?} instead of {:?}", got.visits, want.visits);
    ensure!(got.best == want.best, "best state", "{} instead of {}", got.best, want.best);
    if let (Some(k), Some(b)) = (n_best, &got.n_best) {
        let w: Vec<usize> = want.accepted.iter().take(k).map(|x| x.1).collect();
        ensure!(*b == w, "n_best", "{b:?} instead of {w:?}");
    }
    let w: Vec<String> = want.logged.iter().map(|x| format!("<{}-{}>", x.0, x.1)).collect();
    ensure!(got.log.len() == w.len() && got.log.iter().zip(&w).all(|(a, b)| a.contains(b.as_str())), "log", "{:?} instead of {w:?}", got.log);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "at least three states explored",
        assumptions: &["time limits are not exercised here, only counts"],
        suites: vec![
            Suite { name: "search", quick: 1200000, thorough: 40000000, run: search },
            Suite { name: "ties", quick: 400000, thorough: 10000000, run: ties },
        ],
        hang_violation: Some(20),
    }
}
