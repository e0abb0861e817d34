//! Complex numbers, gate matrices and an exact state-vector simulator. Independent of the code under test: every gate is
//! defined here from its textbook matrix.
use std::f64::consts::PI;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct C(pub f64, pub f64);
impl Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        C(self.0 - o.0, self.1 - o.1)
    }
}
impl Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}
impl Neg for C {
    type Output = C;
    fn neg(self) -> C {
        C(-self.0, -self.1)
    }
}
impl C {
    pub fn conj(self) -> C {
        C(self.0, -self.1)
    }
    pub fn n2(self) -> f64 {
        self.0 * self.0 + self.1 * self.1
    }
    pub fn cis(t: f64) -> C {
        C(t.cos(), t.sin())
    }
    pub fn scale(self, s: f64) -> C {
        C(self.0 * s, self.1 * s)
    }
}
pub const ZERO: C = C(0.0, 0.0);
pub const ONE: C = C(1.0, 0.0);
pub const I: C = C(0.0, 1.0);

/// A square matrix of dimension 2^k, row major. Qubit 0 of the gate is the most significant bit of the index.
#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub d: usize,
    pub m: Vec<C>,
}
impl Mat {
    pub fn new(d: usize, m: Vec<C>) -> Mat {
        assert_eq!(m.len(), d * d);
        Mat { d, m }
    }
    pub fn id(d: usize) -> Mat {
        let mut m = vec![ZERO; d * d];
        for i in 0..d {
            m[i * d + i] = ONE;
        }
        Mat { d, m }
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        let d = self.d;
        let mut m = vec![ZERO; d * d];
        for i in 0..d {
            for j in 0..d {
                let mut s = ZERO;
                for k in 0..d {
                    s = s + self.m[i * d + k] * o.m[k * d + j];
                }
                m[i * d + j] = s;
            }
        }
        Mat { d, m }
    }
    pub fn dagger(&self) -> Mat {
        let d = self.d;
        let mut m = vec![ZERO; d * d];
        for i in 0..d {
            for j in 0..d {
                m[j * d + i] = self.m[i * d + j].conj();
            }
        }
        Mat { d, m }
    }
    pub fn scale(&self, c: C) -> Mat {
        Mat { d: self.d, m: self.m.iter().map(|x| *x * c).collect() }
    }
    pub fn kron(&self, o: &Mat) -> Mat {
        let d = self.d * o.d;
        let mut m = vec![ZERO; d * d];
        for i in 0..self.d {
            for j in 0..self.d {
                for k in 0..o.d {
                    for l in 0..o.d {
                        m[(i * o.d + k) * d + j * o.d + l] = self.m[i * self.d + j] * o.m[k * o.d + l];
                    }
                }
            }
        }
        Mat { d, m }
    }
    /// Adds one control as the new most significant qubit.
    pub fn controlled(&self) -> Mat {
        let d = self.d * 2;
        let mut m = Mat::id(d);
        for i in 0..self.d {
            for j in 0..self.d {
                m.m[(self.d + i) * d + self.d + j] = self.m[i * self.d + j];
            }
        }
        m
    }
    pub fn k(&self) -> usize {
        self.d.trailing_zeros() as usize
    }
}
fn m2(a: C, b: C, c: C, d: C) -> Mat {
    Mat::new(2, vec![a, b, c, d])
}
pub fn phase(t: f64) -> Mat {
    Mat::new(1, vec![C::cis(t)])
}
pub fn x() -> Mat {
    m2(ZERO, ONE, ONE, ZERO)
}
pub fn y() -> Mat {
    m2(ZERO, -I, I, ZERO)
}
pub fn z() -> Mat {
    m2(ONE, ZERO, ZERO, -ONE)
}
pub fn h() -> Mat {
    let s = C(std::f64::consts::FRAC_1_SQRT_2, 0.0);
    m2(s, s, s, -s)
}
/// diag(1, e^{i t}), t in radians
pub fn u1(t: f64) -> Mat {
    m2(ONE, ZERO, ZERO, C::cis(t))
}
/// Rotations; angles in radians.
pub fn rx(t: f64) -> Mat {
    let (c, s) = ((t / 2.0).cos(), (t / 2.0).sin());
    m2(C(c, 0.0), C(0.0, -s), C(0.0, -s), C(c, 0.0))
}
/// A root of X with its phase: V is a square root of X (tket-exts), as S is of Z.
use std::f64::consts::FRAC_1_SQRT_2;
pub fn sx(t: f64) -> Mat {
    let h = m2(C(FRAC_1_SQRT_2, 0.0), C(FRAC_1_SQRT_2, 0.0), C(FRAC_1_SQRT_2, 0.0), C(-FRAC_1_SQRT_2, 0.0));
    h.mul(&u1(t)).mul(&h)
}
pub fn ry(t: f64) -> Mat {
    let (c, s) = ((t / 2.0).cos(), (t / 2.0).sin());
    m2(C(c, 0.0), C(-s, 0.0), C(s, 0.0), C(c, 0.0))
}
pub fn rz(t: f64) -> Mat {
    m2(C::cis(-t / 2.0), ZERO, ZERO, C::cis(t / 2.0))
}
/// Rz(phi) Rx(theta) Rz(-phi)
pub fn phasedx(theta: f64, phi: f64) -> Mat {
    rz(phi).mul(&rx(theta)).mul(&rz(-phi))
}
pub fn zz(t: f64) -> Mat {
    pauli2(&z(), &z(), t)
}
/// exp(-i t/2 A⊗B) for Paulis A, B
pub fn pauli2(a: &Mat, b: &Mat, t: f64) -> Mat {
    let p = a.kron(b);
    let mut m = Mat::id(4).scale(C((t / 2.0).cos(), 0.0));
    for i in 0..16 {
        m.m[i] = m.m[i] + p.m[i] * C(0.0, -(t / 2.0).sin());
    }
    m
}
pub fn swap() -> Mat {
    let mut m = vec![ZERO; 16];
    m[0] = ONE;
    m[6] = ONE;
    m[9] = ONE;
    m[15] = ONE;
    Mat::new(4, m)
}
pub fn half_turns(t: f64) -> f64 {
    t * PI
}

#[derive(Clone, Debug)]
pub struct State {
    /// Qubit ids by bit position: ids[0] is the most significant bit.
    pub ids: Vec<usize>,
    pub a: Vec<C>,
}
impl State {
    pub fn new() -> State {
        State { ids: vec![], a: vec![ONE] }
    }
    /// A generic (reproducible) pure state on the given qubits.
    pub fn generic(ids: &[usize], seed: u64) -> State {
        let mut r = crate::gen::Rng::new(seed ^ 0x5eed_0f_57a7e);
        let n = 1usize << ids.len();
        let mut g = || {
            // sum of uniforms: close enough to Gaussian
            (0..6).map(|_| (r.next() >> 11) as f64 / (1u64 << 53) as f64 - 0.5).sum::<f64>()
        };
        let mut a: Vec<C> = (0..n).map(|_| C(g(), g())).collect();
        let norm = a.iter().map(|c| c.n2()).sum::<f64>().sqrt();
        a.iter_mut().for_each(|c| *c = c.scale(1.0 / norm));
        State { ids: ids.to_vec(), a }
    }
    pub fn pos(&self, q: usize) -> Option<usize> {
        self.ids.iter().position(|x| *x == q)
    }
    pub fn alloc(&mut self, q: usize) {
        assert!(self.pos(q).is_none());
        self.ids.push(q);
        let mut a = vec![ZERO; self.a.len() * 2];
        for (i, c) in self.a.iter().enumerate() {
            a[2 * i] = *c;
        }
        self.a = a;
    }
    fn shift(&self, q: usize) -> Result<usize, String> {
        self.pos(q).map(|p| self.ids.len() - 1 - p).ok_or_else(|| format!("qubit {q} is not live"))
    }
    pub fn apply(&mut self, m: &Mat, qs: &[usize], ctrls: &[usize]) -> Result<(), String> {
        let sh: Vec<usize> = qs.iter().map(|q| self.shift(*q)).collect::<Result<_, _>>()?;
        let mut cm = 0usize;
        for c in ctrls {
            cm |= 1 << self.shift(*c)?;
        }
        let mut tm = 0usize;
        for s in &sh {
            if tm & (1 << s) != 0 || cm & (1 << s) != 0 {
                return Err("gate applied twice to one qubit".into());
            }
            tm |= 1 << s;
        }
        if ctrls.iter().collect::<std::collections::HashSet<_>>().len() != ctrls.len() {
            return Err("repeated control qubit".into());
        }
        let d = m.d;
        let k = sh.len();
        assert_eq!(d, 1 << k);
        let off: Vec<usize> = (0..d).map(|i| (0..k).map(|b| if i >> (k - 1 - b) & 1 == 1 { 1 << sh[b] } else { 0 }).sum()).collect();
        let mut v = vec![ZERO; d];
        for base in 0..self.a.len() {
            if base & tm != 0 || base & cm != cm {
                continue;
            }
            for i in 0..d {
                v[i] = self.a[base + off[i]];
            }
            for i in 0..d {
                let mut s = ZERO;
                for j in 0..d {
                    s = s + m.m[i * d + j] * v[j];
                }
                self.a[base + off[i]] = s;
            }
        }
        Ok(())
    }
    /// Unnormalised weight of outcome `b` of qubit q.
    pub fn weight(&self, q: usize, b: bool) -> Result<f64, String> {
        let s = self.shift(q)?;
        Ok(self.a.iter().enumerate().filter(|(i, _)| (i >> s & 1 == 1) == b).map(|(_, c)| c.n2()).sum())
    }
    /// Projects q on `b`; removes it if `drop`.
    pub fn project(&mut self, q: usize, b: bool, drop: bool) -> Result<(), String> {
        let s = self.shift(q)?;
        if drop {
            let mut a = Vec::with_capacity(self.a.len() / 2);
            for (i, c) in self.a.iter().enumerate() {
                if (i >> s & 1 == 1) == b {
                    a.push(*c);
                }
            }
            self.a = a;
            self.ids.retain(|x| *x != q);
        } else {
            for (i, c) in self.a.iter_mut().enumerate() {
                if (i >> s & 1 == 1) != b {
                    *c = ZERO;
                }
            }
        }
        Ok(())
    }
    /// Reorders so that the qubits are in the given order; all live qubits must be listed.
    pub fn reorder(&self, order: &[usize]) -> Result<Vec<C>, String> {
        if order.len() != self.ids.len() {
            return Err(format!("live qubits {:?}, listed {:?}", self.ids, order));
        }
        let n = order.len();
        let sh: Vec<usize> = order.iter().map(|q| self.shift(*q)).collect::<Result<_, _>>()?;
        let mut a = vec![ZERO; self.a.len()];
        for (i, slot) in a.iter_mut().enumerate() {
            let mut j = 0;
            for (b, s) in sh.iter().enumerate() {
                if i >> (n - 1 - b) & 1 == 1 {
                    j |= 1 << s;
                }
            }
            *slot = self.a[j];
        }
        Ok(a)
    }
    pub fn norm2(&self) -> f64 {
        self.a.iter().map(|c| c.n2()).sum()
    }
}
pub fn inner(a: &[C], b: &[C]) -> C {
    let mut s = ZERO;
    for (x, y) in a.iter().zip(b) {
        s = s + x.conj() * *y;
    }
    s
}
