// A small simulator of unitary programs: straight-line code, DFGs and calls.
#[allow(dead_code, unused)]
pub mod sim {
    use hugr::ops::{OpTrait, OpType};
    use hugr::std_extensions::arithmetic::float_types::ConstF64;
    use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
    use std::collections::HashMap;
    use std::f64::consts::PI;
    use tket::extension::rotation::ConstRotation;

    pub type C = (f64, f64);
    fn mul(a: C, b: C) -> C {
        (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
    }
    fn add(a: C, b: C) -> C {
        (a.0 + b.0, a.1 + b.1)
    }
    fn cis(t: f64) -> C {
        (t.cos(), t.sin())
    }
    #[derive(Clone, Copy, Debug)]
    pub enum V {
        Q(usize),
        F(f64),
        B(bool),
        A([usize; 8], usize),
    }
    pub struct State {
        pub n: usize,
        pub amp: Vec<C>,
    }
    type M2 = [[C; 2]; 2];
    impl State {
        fn g1(&mut self, q: usize, m: M2, ctrl: &[usize]) {
            for i in 0..self.amp.len() {
                if i >> q & 1 == 0 && ctrl.iter().all(|c| i >> c & 1 == 1) {
                    let j = i | 1 << q;
                    let (a, b) = (self.amp[i], self.amp[j]);
                    self.amp[i] = add(mul(m[0][0], a), mul(m[0][1], b));
                    self.amp[j] = add(mul(m[1][0], a), mul(m[1][1], b));
                }
            }
        }
        fn zz(&mut self, a: usize, b: usize, t: f64) {
            for i in 0..self.amp.len() {
                let s = if (i >> a & 1) == (i >> b & 1) { -t / 2. } else { t / 2. };
                self.amp[i] = mul(self.amp[i], cis(s));
            }
        }
    }
    fn rx(t: f64) -> M2 {
        let (c, s) = ((t / 2.).cos(), (t / 2.).sin());
        [[(c, 0.), (0., -s)], [(0., -s), (c, 0.)]]
    }
    fn ry(t: f64) -> M2 {
        let (c, s) = ((t / 2.).cos(), (t / 2.).sin());
        [[(c, 0.), (-s, 0.)], [(s, 0.), (c, 0.)]]
    }
    fn diag(a: C, b: C) -> M2 {
        [[a, (0., 0.)], [(0., 0.), b]]
    }
    fn rz(t: f64) -> M2 {
        diag(cis(-t / 2.), cis(t / 2.))
    }
    fn mm(a: M2, b: M2) -> M2 {
        let mut r = [[(0., 0.); 2]; 2];
        for i in 0..2 {
            for j in 0..2 {
                r[i][j] = add(mul(a[i][0], b[0][j]), mul(a[i][1], b[1][j]));
            }
        }
        r
    }
    fn gate(s: &mut State, name: &str, i: &[V]) -> Option<Vec<V>> {
        let q = |k: usize| match i[k] {
            V::Q(q) => q,
            v => panic!("no qubit: {v:?}"),
        };
        let f = |k: usize| match i[k] {
            V::F(x) => x,
            v => panic!("no number: {v:?}"),
        };
        let x = [[(0., 0.), (1., 0.)], [(1., 0.), (0., 0.)]];
        let y = [[(0., 0.), (0., -1.)], [(0., 1.), (0., 0.)]];
        let z = diag((1., 0.), (-1., 0.));
        let r = 0.5f64.sqrt();
        let o = match name {
            "tket.quantum.H" => { s.g1(q(0), [[(r, 0.), (r, 0.)], [(r, 0.), (-r, 0.)]], &[]); vec![i[0]] }
            "tket.quantum.X" => { s.g1(q(0), x, &[]); vec![i[0]] }
            "tket.quantum.Y" => { s.g1(q(0), y, &[]); vec![i[0]] }
            "tket.quantum.Z" => { s.g1(q(0), z, &[]); vec![i[0]] }
            "tket.quantum.S" => { s.g1(q(0), diag((1., 0.), (0., 1.)), &[]); vec![i[0]] }
            "tket.quantum.Sdg" => { s.g1(q(0), diag((1., 0.), (0., -1.)), &[]); vec![i[0]] }
            "tket.quantum.T" => { s.g1(q(0), diag((1., 0.), cis(PI / 4.)), &[]); vec![i[0]] }
            "tket.quantum.Tdg" => { s.g1(q(0), diag((1., 0.), cis(-PI / 4.)), &[]); vec![i[0]] }
            "tket.quantum.V" => { s.g1(q(0), rx(PI / 2.), &[]); vec![i[0]] }
            "tket.quantum.Vdg" => { s.g1(q(0), rx(-PI / 2.), &[]); vec![i[0]] }
            "tket.quantum.Rx" => { s.g1(q(0), rx(f(1) * PI), &[]); vec![i[0]] }
            "tket.quantum.Ry" => { s.g1(q(0), ry(f(1) * PI), &[]); vec![i[0]] }
            "tket.quantum.Rz" => { s.g1(q(0), rz(f(1) * PI), &[]); vec![i[0]] }
            "tket.quantum.CX" => { s.g1(q(1), x, &[q(0)]); vec![i[0], i[1]] }
            "tket.quantum.CY" => { s.g1(q(1), y, &[q(0)]); vec![i[0], i[1]] }
            "tket.quantum.CZ" => { s.g1(q(1), z, &[q(0)]); vec![i[0], i[1]] }
            "tket.quantum.CRz" => { s.g1(q(1), rz(f(2) * PI), &[q(0)]); vec![i[0], i[1]] }
            "tket.quantum.Toffoli" => { s.g1(q(2), x, &[q(0), q(1)]); vec![i[0], i[1], i[2]] }
            "tket.global_phase.global_phase" => { let p = cis(f(0) * PI); s.amp.iter_mut().for_each(|a| *a = mul(*a, p)); vec![] }
            "tket.qsystem.Rz" => { s.g1(q(0), rz(f(1)), &[]); vec![i[0]] }
            "tket.qsystem.PhasedX" => { s.g1(q(0), mm(rz(f(2)), mm(rx(f(1)), rz(-f(2)))), &[]); vec![i[0]] }
            "tket.qsystem.ZZPhase" => { s.zz(q(0), q(1), f(2)); vec![i[0], i[1]] }
            "arithmetic.float.fmul" => vec![V::F(f(0) * f(1))],
            "arithmetic.float.fdiv" => vec![V::F(f(0) / f(1))],
            "arithmetic.float.fadd" => vec![V::F(f(0) + f(1))],
            "arithmetic.float.fsub" => vec![V::F(f(0) - f(1))],
            "arithmetic.float.fneg" => vec![V::F(-f(0))],
            "tket.rotation.radd" => vec![V::F(f(0) + f(1))],
            "collections.array.new_array" => {
                let mut a = [0; 8];
                for k in 0..i.len() {
                    a[k] = q(k);
                }
                vec![V::A(a, i.len())]
            }
            "collections.array.unpack" => match i[0] {
                V::A(a, n) => a[..n].iter().map(|q| V::Q(*q)).collect(),
                v => panic!("no array: {v:?}"),
            },
            "tket.rotation.to_halfturns" | "tket.rotation.from_halfturns_unchecked" => vec![i[0]],
            _ => return None,
        };
        Some(o)
    }
    fn is_const(h: &Hugr, n: Node) -> Option<V> {
        let OpType::Const(c) = h.get_optype(n) else { return None };
        let v = c.value();
        if let Some(f) = v.get_custom_value::<ConstF64>() {
            return Some(V::F(f.value()));
        }
        if let Some(f) = v.get_custom_value::<ConstRotation>() {
            return Some(V::F(f.half_turns()));
        }
        None
    }
    pub fn run(h: &Hugr, region: Node, ins: &[V], s: &mut State) -> Vec<V> {
        let mut w: HashMap<(Node, usize), V> = HashMap::new();
        let [inp, out] = h.get_io(region).unwrap();
        for (k, v) in ins.iter().enumerate() {
            w.insert((inp, k), *v);
        }
        let mut todo: Vec<Node> = h.children(region).filter(|n| *n != inp && *n != out).collect();
        let mut done: std::collections::HashSet<Node> = [inp].into();
        let get = |w: &HashMap<(Node, usize), V>, n: Node| -> Option<Vec<V>> {
            (0..h.signature(n).unwrap().input_count())
                .map(|p| {
                    let (a, b) = h.single_linked_output(n, p)?;
                    w.get(&(a, b.index())).copied()
                })
                .collect()
        };
        while !todo.is_empty() {
            let before = todo.len();
            todo.retain(|&n| {
                let op = h.get_optype(n);
                match op {
                    OpType::Const(_) => { done.insert(n); return false }
                    OpType::LoadFunction(_) => { w.insert((n, 0), V::B(false)); done.insert(n); return false }
                    OpType::LoadConstant(_) => {
                        let c = h.single_linked_output(n, 0).unwrap().0;
                        if let Some(v) = is_const(h, c) {
                            w.insert((n, 0), v);
                        }
                        done.insert(n);
                        return false;
                    }
                    _ => (),
                }
                let ready = h.all_neighbours(n).filter(|m| h.input_neighbours(n).any(|x| x == *m)).all(|m| h.get_parent(m) != Some(region) || done.contains(&m));
                let Some(i) = get(&w, n).filter(|_| ready) else { return true };
                let o = match op {
                    OpType::DFG(_) => run(h, n, &i, s),
                    OpType::Call(_) => run(h, h.static_source(n).unwrap(), &i, s),
                    OpType::CallIndirect(_) => run(h, h.static_source(h.single_linked_output(n, 0).unwrap().0).unwrap(), &i[1..], s),
                    OpType::ExtensionOp(e) => gate(s, &e.qualified_id().to_string(), &i).unwrap_or_else(|| panic!("cannot run {}", e.qualified_id())),
                    o => panic!("cannot run {o}"),
                };
                for (k, v) in o.into_iter().enumerate() {
                    w.insert((n, k), v);
                }
                done.insert(n);
                false
            });
            assert!(todo.len() < before, "stuck");
        }
        get(&w, out).expect("outputs")
    }
    /// The matrix of a function over qubits, columns by input basis state; other arguments are given.
    pub fn unitary(h: &Hugr, region: Node, args: &[f64]) -> Vec<Vec<C>> {
        let sig = h.signature(h.get_io(region).unwrap()[0]).unwrap().into_owned();
        let n = sig.output_types().iter().filter(|t| **t == hugr::extension::prelude::qb_t()).count();
        (0..1usize << n)
            .map(|b| {
                let mut s = State { n, amp: vec![(0., 0.); 1 << n] };
                s.amp[b] = (1., 0.);
                let (mut q, mut a) = (0, args.iter());
                let ins: Vec<V> = sig.output_types().iter().map(|t| {
                    if *t == hugr::extension::prelude::qb_t() { q += 1; V::Q(q - 1) } else { V::F(*a.next().unwrap()) }
                }).collect();
                let o: Vec<usize> = run(h, region, &ins, &mut s).into_iter().filter_map(|v| match v { V::Q(q) => Some(q), _ => None }).collect();
                assert_eq!(o.len(), n);
                let mut r = vec![(0., 0.); 1 << n];
                for i in 0..1usize << n {
                    let j: usize = o.iter().enumerate().map(|(k, q)| (i >> q & 1) << k).sum();
                    r[j] = s.amp[i];
                }
                r
            })
            .collect()
    }
    /// Equal up to a global phase.
    pub fn same(a: &[Vec<C>], b: &[Vec<C>]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut t = (0., 0.);
        for (x, y) in a.iter().flatten().zip(b.iter().flatten()) {
            t = add(t, mul((x.0, -x.1), *y));
        }
        ((t.0 * t.0 + t.1 * t.1).sqrt() - a.len() as f64).abs() < 1e-6
    }
    pub fn same_exactly(a: &[Vec<C>], b: &[Vec<C>]) -> bool {
        a.len() == b.len() && a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| (x.0 - y.0).abs() < 1e-6 && (x.1 - y.1).abs() < 1e-6)
    }
}
