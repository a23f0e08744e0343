//! An independent model of PLONK as this repository states it: circuits by recipe,
//! the intended public polynomials, the transcript, a prover and a verifier that
//! works with the secret instead of the pairing.

use ark_bls12_381::{Fr, G1Affine, G1Projective};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, Evaluations, GeneralEvaluationDomain, Polynomial};
use ark_serialize::CanonicalSerialize;
use digest_10::Digest;
use kzg::commitment::KzgCommitment;
use plonk::circuit::Circuit;
use plonk::common_preprocessed_input::cpi_circuit::CPICircuit;
use plonk::prover::Proof;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};

use crate::gen::*;

pub type P = DensePolynomial<Fr>;

// ---------------------------------------------------------------- circuits

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Add,
    Mul,
    Const,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WireR {
    New(Fe),
    Old(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OutR {
    /// a new variable, computed, with this public input
    Fresh(Fe),
    /// an existing variable; the public input is what makes it fit
    Old(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GateR {
    pub kind: Kind,
    pub a: WireR,
    pub b: WireR,
    pub c: OutR,
}

/// A satisfied circuit.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CircR {
    pub gates: Vec<GateR>,
    /// order of the cells in the copy cycles
    pub wiring: u64,
    /// tie the cells of a variable in several cycles instead of one
    pub split: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Gate {
    pub kind: Kind,
    pub vals: [Fr; 3],
    pub pi: Fr,
    pub next: [(usize, usize); 3],
    pub var: [usize; 3],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Conc {
    pub gates: Vec<Gate>,
}

pub fn gate_r() -> BoxedStrategy<GateR> {
    let wire = || prop_oneof![3 => any::<u16>().prop_map(WireR::Old), 2 => fe().prop_map(WireR::New)];
    let out = prop_oneof![
        5 => Just(OutR::Fresh(Fe::Z)),
        2 => fe().prop_map(OutR::Fresh),
        2 => any::<u16>().prop_map(OutR::Old),
    ];
    (prop_oneof![3 => Just(Kind::Add), 3 => Just(Kind::Mul), 2 => Just(Kind::Const)], wire(), wire(), out)
        .prop_map(|(kind, a, b, c)| GateR { kind, a, b, c })
        .boxed()
}

pub fn circ(sizes: std::ops::RangeInclusive<usize>) -> BoxedStrategy<CircR> {
    (prop::collection::vec(gate_r(), sizes), any::<u64>(), prop::bool::weighted(0.15))
        .prop_map(|(gates, wiring, split)| CircR { gates, wiring, split })
        .boxed()
}

/// A random circuit of this many gates, always the same for a seed.
pub fn big(gates: usize, seed: u64) -> CircR {
    use proptest::strategy::ValueTree;
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
    let mut bytes = [7u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&(gates as u64).to_le_bytes());
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
    circ(gates..=gates).new_tree(&mut r).unwrap().current()
}

impl CircR {
    pub fn build(&self) -> Conc {
        let mut vars: Vec<Fr> = vec![];
        let mut gates = vec![];
        for g in &self.gates {
            let wire = |w: &WireR, vars: &mut Vec<Fr>| match w {
                WireR::Old(i) if !vars.is_empty() => idx(*i, vars.len()),
                WireR::Old(i) => {
                    vars.push(Fr::from(*i));
                    vars.len() - 1
                }
                WireR::New(f) => {
                    vars.push(f.f());
                    vars.len() - 1
                }
            };
            let a = wire(&g.a, &mut vars);
            let b = wire(&g.b, &mut vars);
            let calc = match g.kind {
                Kind::Add => vars[a] + vars[b],
                Kind::Mul => vars[a] * vars[b],
                Kind::Const => Fr::zero(),
            };
            let (c, pi) = match (&g.c, g.kind) {
                (OutR::Old(i), Kind::Const) => (idx(*i, vars.len()), Fr::zero()),
                (OutR::Fresh(f), Kind::Const) => {
                    vars.push(f.f());
                    (vars.len() - 1, Fr::zero())
                }
                (OutR::Old(i), _) => {
                    let c = idx(*i, vars.len());
                    (c, calc - vars[c])
                }
                (OutR::Fresh(f), _) => {
                    let pi: Fr = f.f();
                    vars.push(calc - pi);
                    (vars.len() - 1, pi)
                }
            };
            gates.push(Gate { kind: g.kind, vals: [vars[a], vars[b], vars[c]], pi, next: [(0, 0); 3], var: [a, b, c] });
        }
        let mut conc = Conc { gates };
        conc.wire(vars.len(), self.wiring, self.split);
        conc
    }
}

impl Conc {
    /// Ties the cells of each variable in a cycle.
    fn wire(&mut self, vars: usize, seed: u64, split: bool) {
        let mut rng = StdRng::seed_from_u64(seed);
        let mut cells = vec![vec![]; vars];
        for (i, g) in self.gates.iter().enumerate() {
            for w in 0..3 {
                cells[g.var[w]].push((w, i));
            }
        }
        for mut v in cells {
            v.shuffle(&mut rng);
            let parts: Vec<Vec<(usize, usize)>> = if split && v.len() > 2 {
                let k = rng.gen_range(1..v.len());
                let t = v.split_off(k);
                vec![v, t]
            } else {
                vec![v]
            };
            for p in parts {
                for (j, (w, i)) in p.iter().enumerate() {
                    self.gates[*i].next[*w] = p[(j + 1) % p.len()];
                }
            }
        }
    }

    pub fn n(&self) -> usize {
        self.gates.len().next_power_of_two()
    }

    pub fn circuit(&self) -> Circuit {
        let mut c = Circuit::default();
        for g in &self.gates {
            let t = |w: usize| (g.next[w].0, g.next[w].1, g.vals[w]);
            match g.kind {
                Kind::Add => c.add_addition_gate(t(0), t(1), t(2), g.pi),
                Kind::Mul => c.add_multiplication_gate(t(0), t(1), t(2), g.pi),
                Kind::Const => c.add_constant_gate(t(0), t(1), t(2), g.pi),
            }
        }
        c
    }

    pub fn cpi(&self) -> CPICircuit {
        let mut c = CPICircuit::default();
        for g in &self.gates {
            c = match g.kind {
                Kind::Add => c.add_addition_gate(g.next[0], g.next[1], g.next[2], g.pi),
                Kind::Mul => c.add_multiplication_gate(g.next[0], g.next[1], g.next[2], g.pi),
                Kind::Const => c.add_constant_gate(g.next[0], g.next[1], g.next[2], g.vals[0], g.pi),
            };
        }
        c
    }

    fn gate_ok(g: &Gate) -> bool {
        let [a, b, c] = g.vals;
        match g.kind {
            Kind::Add => a + b == c + g.pi,
            Kind::Mul => a * b == c + g.pi,
            // the constant is the value of the gate's own first wire
            Kind::Const => g.pi.is_zero(),
        }
    }

    pub fn gates_ok(&self) -> bool {
        self.gates.iter().all(Self::gate_ok)
    }

    pub fn copies_ok(&self) -> bool {
        self.gates.iter().all(|g| (0..3).all(|w| self.gates[g.next[w].1].vals[g.next[w].0] == g.vals[w]))
    }

    pub fn satisfied(&self) -> bool {
        self.gates_ok() && self.copies_ok()
    }

    /// What the verifier is told: everything but the wire values.
    pub fn key(&self) -> Vec<(Kind, Option<Fr>, Fr, [(usize, usize); 3])> {
        self.gates.iter().map(|g| (g.kind, (g.kind == Kind::Const).then_some(g.vals[0]), g.pi, g.next)).collect()
    }

    /// The intended values on the domain.
    pub fn tables(&self, k1: Fr, k2: Fr) -> Tables {
        let n = self.n();
        let dom = GeneralEvaluationDomain::<Fr>::new(n).unwrap();
        let roots: Vec<Fr> = (0..n).map(|i| dom.group_gen().pow([i as u64])).collect();
        let ks = [Fr::one(), k1, k2];
        let mut t = Tables {
            n,
            q: [(); 6].map(|_| vec![Fr::zero(); n]),
            f: [(); 3].map(|_| vec![Fr::zero(); n]),
            s: [0, 1, 2].map(|w| roots.iter().map(|r| ks[w] * r).collect()),
            k1,
            k2,
        };
        let one = Fr::one();
        for (i, g) in self.gates.iter().enumerate() {
            // q_l, q_r, q_o, q_m, q_c, pi
            let q = match g.kind {
                Kind::Add => [one, one, -one, Fr::zero(), Fr::zero(), -g.pi],
                Kind::Mul => [Fr::zero(), Fr::zero(), -one, one, Fr::zero(), -g.pi],
                Kind::Const => [one, Fr::zero(), Fr::zero(), Fr::zero(), -g.vals[0], -g.pi],
            };
            for k in 0..6 {
                t.q[k][i] = q[k];
            }
            for w in 0..3 {
                t.f[w][i] = g.vals[w];
                t.s[w][i] = ks[g.next[w].0] * roots[g.next[w].1];
            }
        }
        t
    }
}

/// Values on the domain: selectors and public input (l, r, o, m, c, pi), wires, permutation.
#[derive(Clone, Debug)]
pub struct Tables {
    pub n: usize,
    pub q: [Vec<Fr>; 6],
    pub f: [Vec<Fr>; 3],
    pub s: [Vec<Fr>; 3],
    pub k1: Fr,
    pub k2: Fr,
}

pub fn interp(v: &[Fr]) -> P {
    let dom = GeneralEvaluationDomain::<Fr>::new(v.len()).unwrap();
    Evaluations::from_vec_and_domain(v.to_vec(), dom).interpolate()
}

/// Polynomials of a circuit.
#[derive(Clone)]
pub struct Polys {
    pub n: usize,
    pub q: [P; 6],
    pub f: [P; 3],
    pub s: [P; 3],
    pub k1: Fr,
    pub k2: Fr,
}

impl Tables {
    pub fn polys(&self) -> Polys {
        let i = |v: &Vec<Fr>| interp(v);
        Polys {
            n: self.n,
            q: [0, 1, 2, 3, 4, 5].map(|k| i(&self.q[k])),
            f: [0, 1, 2].map(|k| i(&self.f[k])),
            s: [0, 1, 2].map(|k| i(&self.s[k])),
            k1: self.k1,
            k2: self.k2,
        }
    }
}

impl Polys {
    pub fn of(c: &plonk::compiled_circuit::CompiledCircuit) -> Polys {
        let (g, k) = (c.gate_constraints(), c.copy_constraints());
        Polys {
            n: c.size,
            q: [g.q_lx(), g.q_rx(), g.q_ox(), g.q_mx(), g.q_cx(), g.pi_x()].map(Clone::clone),
            f: [g.f_ax(), g.f_bx(), g.f_cx()].map(Clone::clone),
            s: [k.s_sigma_1(), k.s_sigma_2(), k.s_sigma_3()].map(Clone::clone),
            k1: *k.k1(),
            k2: *k.k2(),
        }
    }
    pub fn domain(&self) -> GeneralEvaluationDomain<Fr> {
        GeneralEvaluationDomain::new(self.n).unwrap()
    }
}

// ---------------------------------------------------------------- transcript

pub struct Tr<T: Digest> {
    data: Vec<u8>,
    _p: std::marker::PhantomData<T>,
}
impl<T: Digest> Clone for Tr<T> {
    fn clone(&self) -> Self {
        Tr::with(self.data.clone())
    }
}
impl<T: Digest> Tr<T> {
    pub fn new() -> Self {
        Tr::with(vec![])
    }
    pub fn with(data: Vec<u8>) -> Self {
        Tr { data, _p: Default::default() }
    }
    pub fn feed(&mut self, p: G1Affine) {
        let mut h = T::new();
        h.update(&self.data);
        let mut b = vec![];
        p.serialize_uncompressed(&mut b).unwrap();
        h.update(&b);
        self.data = h.finalize().to_vec();
    }
    pub fn squeeze<const N: usize>(&self) -> [Fr; N] {
        let mut rng = StdRng::seed_from_u64(u64::from_le_bytes(self.data[..8].try_into().unwrap()));
        [(); N].map(|_| Fr::rand(&mut rng))
    }
}

#[derive(Clone, Debug)]
pub struct Chal {
    pub beta: Fr,
    pub gamma: Fr,
    pub alpha: Fr,
    pub zeta: Fr,
    pub v: Fr,
    pub u: Fr,
}

pub fn challenges<T: Digest>(pi: G1Affine, p: &Proof) -> Chal {
    let mut t = Tr::<T>::new();
    for c in [pi, p.a_commit.0, p.b_commit.0, p.c_commit.0] {
        t.feed(c);
    }
    let [beta, gamma] = t.squeeze();
    t.feed(p.z_commit.0);
    let [alpha] = t.squeeze();
    for c in [&p.t_lo_commit, &p.t_mid_commit, &p.t_hi_commit] {
        t.feed(c.0);
    }
    let [zeta] = t.squeeze();
    for e in [p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w] {
        t.feed(g1(e));
    }
    let [v] = t.squeeze();
    t.feed(p.w_ev_x_commit.0);
    t.feed(p.w_ev_wx_commit.0);
    let [u] = t.squeeze();
    Chal { beta, gamma, alpha, zeta, v, u }
}

pub fn clone_proof(p: &Proof) -> Proof {
    Proof {
        a_commit: p.a_commit.clone(),
        b_commit: p.b_commit.clone(),
        c_commit: p.c_commit.clone(),
        z_commit: p.z_commit.clone(),
        t_lo_commit: p.t_lo_commit.clone(),
        t_mid_commit: p.t_mid_commit.clone(),
        t_hi_commit: p.t_hi_commit.clone(),
        w_ev_x_commit: p.w_ev_x_commit.clone(),
        w_ev_wx_commit: p.w_ev_wx_commit.clone(),
        bar_a: p.bar_a,
        bar_b: p.bar_b,
        bar_c: p.bar_c,
        bar_s_sigma_1: p.bar_s_sigma_1,
        bar_s_sigma_2: p.bar_s_sigma_2,
        bar_z_w: p.bar_z_w,
        u: p.u,
        degree: p.degree,
    }
}

// ---------------------------------------------------------------- verifier

/// The terms of the verification equation that a proof's circuit, evaluations and
/// challenges determine.
pub struct Terms {
    /// scalars of (z without u, t_lo, t_mid, t_hi) in D
    pub z: Fr,
    pub t: [Fr; 3],
    /// the part of F - E known as a scalar: circuit commitments and evaluations, without u
    pub konst: Fr,
}

pub fn terms(pl: &Polys, s: Fr, p: &Proof, c: &Chal) -> Terms {
    let n = Fr::from(pl.n as u64);
    let zh = c.zeta.pow([pl.n as u64]) - Fr::one();
    let l1 = zh / (n * (c.zeta - Fr::one()));
    let e = |p: &P| p.evaluate(&s);
    let (a, b, cc, s1, s2, zw) = (p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w);
    let pi = pl.q[5].evaluate(&c.zeta);
    let gate = a * e(&pl.q[0]) + b * e(&pl.q[1]) + cc * e(&pl.q[2]) + a * b * e(&pl.q[3]) + e(&pl.q[4]) + pi;
    let z = c.alpha
        * (a + c.beta * c.zeta + c.gamma)
        * (b + c.beta * pl.k1 * c.zeta + c.gamma)
        * (cc + c.beta * pl.k2 * c.zeta + c.gamma)
        + c.alpha * c.alpha * l1;
    let perm = c.alpha * (a + c.beta * s1 + c.gamma) * (b + c.beta * s2 + c.gamma) * zw;
    // r(X) = gate + z(X)*z - perm*(c + beta*s3(X) + gamma) - alpha^2 l1 - zh*t(X)
    let konst_r = gate - perm * (cc + c.beta * e(&pl.s[2]) + c.gamma) - c.alpha * c.alpha * l1;
    let v = c.v;
    let konst = konst_r - v * a - v * v * b - v.pow([3]) * cc + v.pow([4]) * (e(&pl.s[0]) - s1) + v.pow([5]) * (e(&pl.s[1]) - s2);
    let m = c.zeta.pow([p.degree as u64 + 1]);
    Terms { z, t: [-zh, -zh * m, -zh * m * m], konst }
}

/// Whether the proof satisfies the PLONK equation under the secret `s`. `pi` commits to the public inputs.
pub fn accepts<T: Digest>(pl: &Polys, s: Fr, p: &Proof) -> bool {
    if p.degree > pl.n + 1 {
        return false;
    }
    let c = challenges::<T>(g1(pl.q[5].evaluate(&s)), p);
    p.u == c.u && equation(pl, s, p, &c)
}

pub fn equation(pl: &Polys, s: Fr, p: &Proof, c: &Chal) -> bool {
    let t = terms(pl, s, p, c);
    let w = pl.domain().group_gen();
    let v = c.v;
    let g = G1Affine::generator();
    // (s - zeta) W + u (s - zeta w) W' = F - E
    let lhs = p.w_ev_x_commit.0 * (s - c.zeta) + p.w_ev_wx_commit.0 * (c.u * (s - c.zeta * w));
    let rhs = g * (t.konst - c.u * p.bar_z_w)
        + p.z_commit.0 * (t.z + c.u)
        + p.t_lo_commit.0 * t.t[0]
        + p.t_mid_commit.0 * t.t[1]
        + p.t_hi_commit.0 * t.t[2]
        + p.a_commit.0 * v
        + p.b_commit.0 * (v * v)
        + p.c_commit.0 * v.pow([3]);
    lhs == rhs
}

// ---------------------------------------------------------------- prover

/// The values of the permutation polynomial that a prover commits to.
#[derive(Clone, Debug, PartialEq)]
pub enum ZMode {
    /// the grand product
    Acc,
    Const(Fr),
    /// the grand product, starting with this
    Scaled(Fr),
    /// starting with what makes up for the first gate
    FirstGate,
    /// solves the recurrence with the start (and the gates, if set) summed up
    Solve(bool),
    /// the grand product without its first step
    FromOne,
}

/// Which rows the constraints hold on.
#[derive(Clone, Debug, PartialEq)]
pub enum Rows {
    All,
    /// the rows of the subgroup of half the size
    Half,
    ButFirst,
    ButLast,
}

/// How a challenge is made.
#[derive(Clone, Debug, PartialEq)]
pub enum Over {
    Fresh,
    Const(Fr),
    /// gamma = c * beta
    Beta(Fr),
}

/// What a prover makes of its freedom in the evaluations.
#[derive(Clone, Debug, PartialEq)]
pub enum Solve {
    None,
    /// this evaluation makes the opened sum vanish
    One(usize),
    /// opposite changes of these two
    Pair(usize, usize),
}

/// A prover for a protocol in which something is left out; everything else is consistent
/// with that, so that a verifier with the same omission accepts.
#[derive(Clone, Debug)]
pub struct Weak {
    pub name: String,
    /// which of the selectors (l, r, o, m, c, pi) count
    pub q: [bool; 6],
    /// which wires the permutation covers
    pub wires: [bool; 3],
    pub beta: Over,
    pub gamma: Over,
    /// powers of alpha of the gates, the permutation, its start
    pub pow: [Option<u64>; 3],
    pub z: ZMode,
    pub rows: Rows,
    /// powers of v of the openings of (a, b, c, s1, s2)
    pub open: [Option<u64>; 5],
    pub solve: Solve,
    /// messages that are not hashed, or hashed one round later
    pub skip: u16,
    pub late: u16,
    /// this part of the quotient is fixed up after the point is known
    pub fix_t: Option<usize>,
    /// the multipoint challenge is this / is known in advance, and the openings use it
    pub u: Option<Fr>,
    pub joint: bool,
    /// the first opening is chosen first, the second makes up for it
    pub second: bool,
}

// messages: pi a b c z t0 t1 t2 e0..e5 w w'
const M_Z: u16 = 1 << 4;
const M_T: u16 = 5;
const M_E: u16 = 8;
const M_W: u16 = 1 << 14;
const M_WW: u16 = 1 << 15;

impl Weak {
    pub fn honest(name: &str) -> Weak {
        Weak {
            name: name.to_string(),
            q: [true; 6],
            wires: [true; 3],
            beta: Over::Fresh,
            gamma: Over::Fresh,
            pow: [Some(0), Some(1), Some(2)],
            z: ZMode::Acc,
            rows: Rows::All,
            open: [1, 2, 3, 4, 5].map(Some),
            solve: Solve::None,
            skip: 0,
            late: 0,
            fix_t: None,
            u: None,
            joint: false,
            second: false,
        }
    }
}

/// All the dishonest provers.
pub fn cheats(scale: Fr) -> Vec<Weak> {
    fn w(name: &str, f: impl FnOnce(&mut Weak)) -> Weak {
        let mut w = Weak::honest(name);
        f(&mut w);
        w
    }
    let c = |k: u64| Fr::from(k);
    let mut v = vec![
        w("remainder dropped", |_| {}),
        w("flat z", |w| w.z = ZMode::Const(Fr::one())),
        w("scaled z", |w| w.z = ZMode::Scaled(scale)),
        w("no gates", |w| w.pow[0] = None),
        w("no permutation", |w| w.pow[1] = None),
        w("no start", |w| {
            w.pow[2] = None;
            w.z = ZMode::Const(Fr::zero())
        }),
        w("no copies", |w| {
            w.pow[1] = None;
            w.pow[2] = None
        }),
        w("alpha one", |w| {
            w.pow = [Some(0); 3];
            w.z = ZMode::Solve(true)
        }),
        w("start as permutation", |w| {
            w.pow = [Some(0), Some(1), Some(1)];
            w.z = ZMode::Solve(false)
        }),
        w("start as gates", |w| {
            w.pow = [Some(0), Some(1), Some(0)];
            w.z = ZMode::FirstGate
        }),
        w("half the rows", |w| w.rows = Rows::Half),
        w("not the first row", |w| {
            w.rows = Rows::ButFirst;
            w.z = ZMode::FromOne
        }),
        w("not the last row", |w| w.rows = Rows::ButLast),
        w("second opening dropped", |w| {
            w.u = Some(Fr::zero());
            w.solve = Solve::One(5)
        }),
        w("multipoint challenge one", |w| {
            w.u = Some(Fr::one());
            w.joint = true
        }),
        w("multipoint challenge early", |w| {
            w.skip = M_W | M_WW;
            w.joint = true
        }),
        w("second opening unhashed", |w| {
            w.skip = M_WW;
            w.second = true
        }),
    ];
    for (j, n) in ["l", "r", "o", "m", "c", "pi"].iter().enumerate() {
        v.push(w(&format!("no q_{n}"), |w| w.q[j] = false));
    }
    for j in 0..3 {
        v.push(w(&format!("wire {j} not permuted"), |w| w.wires[j] = false));
        v.push(w(&format!("only wire {j} permuted"), |w| w.wires = [0, 1, 2].map(|k| k == j)));
    }
    for (n, b) in [("0", 0u64), ("1", 1)] {
        v.push(w(&format!("beta {n}"), |w| w.beta = Over::Const(c(b))));
        v.push(w(&format!("gamma {n}"), |w| w.gamma = Over::Const(c(b))));
    }
    v.push(w("gamma beta", |w| w.gamma = Over::Beta(Fr::one())));
    for k in 0..6 {
        v.push(w(&format!("evaluation {k} chosen"), |w| w.solve = Solve::One(k)));
        v.push(w(&format!("evaluation {k} unhashed"), |w| {
            w.solve = Solve::One(k);
            w.skip = 1 << (M_E + k as u16)
        }));
        v.push(w(&format!("evaluation {k} late"), |w| {
            w.solve = Solve::One(k);
            w.late = 1 << (M_E + k as u16)
        }));
    }
    v.push(w("evaluations late", |w| {
        w.solve = Solve::One(2);
        w.late = 63 << M_E
    }));
    for k in 0..5 {
        v.push(w(&format!("evaluation {k} unopened"), |w| {
            w.solve = Solve::One(k);
            w.open[k] = None
        }));
        for j in 0..k {
            v.push(w(&format!("evaluations {j} and {k} opened alike"), |w| {
                w.solve = Solve::Pair(j, k);
                w.open[k] = w.open[j]
            }));
        }
    }
    for k in 0..3 {
        let m = 1 << (M_T + k as u16);
        v.push(w(&format!("quotient {k} fixed up"), |w| w.fix_t = Some(k)));
        v.push(w(&format!("quotient {k} unhashed"), |w| {
            w.fix_t = Some(k);
            w.skip = m
        }));
        v.push(w(&format!("quotient {k} late"), |w| {
            w.fix_t = Some(k);
            w.late = m
        }));
    }
    v.push(w("quotient late", |w| {
        w.fix_t = Some(0);
        w.late = 7 << M_T
    }));
    for (n, late) in [("unhashed", false), ("late", true)] {
        v.push(w(&format!("z {n}"), |w| {
            *(if late { &mut w.late } else { &mut w.skip }) = M_Z;
            w.z = ZMode::Solve(true)
        }));
    }
    v
}

pub fn cheat(name: &str) -> Weak {
    cheats(Fr::from(2u64)).into_iter().find(|w| w.name == name).unwrap()
}

fn com(p: &P, s: Fr) -> KzgCommitment {
    KzgCommitment(g1(p.evaluate(&s)))
}
fn lin(a: Fr, b: Fr) -> P {
    P::from_coefficients_vec(vec![a, b])
}
fn konst(a: Fr) -> P {
    P::from_coefficients_vec(vec![a])
}
fn scale(p: &P, k: Fr) -> P {
    P::from_coefficients_vec(p.coeffs.iter().map(|c| *c * k).collect())
}
fn div_linear(p: &P, z: Fr) -> P {
    // floor of p / (X - z)
    let c = &p.coeffs;
    if c.len() < 2 {
        return P::zero();
    }
    let mut q = vec![Fr::zero(); c.len() - 1];
    let mut acc = Fr::zero();
    for i in (1..c.len()).rev() {
        acc = acc * z + c[i];
        q[i - 1] = acc;
    }
    P::from_coefficients_vec(q)
}

/// The transcript of a prover that leaves messages out or hashes them late.
struct WTr<'a, T: Digest> {
    t: Tr<T>,
    pend: Vec<G1Affine>,
    drawn: usize,
    w: &'a Weak,
}
impl<T: Digest> WTr<'_, T> {
    fn feed(&mut self, at: u16, p: G1Affine) {
        let m = 1u16 << at;
        if self.w.late & m != 0 {
            self.pend.push(p);
        } else if self.w.skip & m == 0 {
            self.t.feed(p);
            self.drawn = 0;
        }
    }
    /// Draws goes on where it stopped if nothing was hashed in between.
    fn draw(&mut self) -> Fr {
        let mut rng = StdRng::seed_from_u64(u64::from_le_bytes(self.t.data[..8].try_into().unwrap()));
        let mut r = Fr::zero();
        for _ in 0..=self.drawn {
            r = Fr::rand(&mut rng);
        }
        self.drawn += 1;
        r
    }
    fn flush(&mut self) {
        for p in std::mem::take(&mut self.pend) {
            self.t.feed(p);
            self.drawn = 0;
        }
    }
}

/// A prover that knows polynomials only (the secret just replaces the reference string).
pub fn prove<T: Digest>(pl: &Polys, s: Fr, seed: u64) -> Proof {
    prove_weak::<T>(pl, s, seed, &Weak::honest("")).0
}

/// Also tells whether a verifier with the same omission accepts.
pub fn prove_weak<T: Digest>(pl: &Polys, s: Fr, seed: u64, wk: &Weak) -> (Proof, bool) {
    let mut rng = StdRng::seed_from_u64(seed);
    let n = pl.n;
    let dom = pl.domain();
    let w = dom.group_gen();
    let mut blind = |k: usize| P::from_coefficients_vec((0..k).map(|_| Fr::rand(&mut rng)).collect()).mul_by_vanishing_poly(dom);
    let f: Vec<P> = (0..3).map(|k| &pl.f[k] + &blind(2)).collect();
    let q: Vec<P> = (0..6).map(|k| if wk.q[k] { pl.q[k].clone() } else { P::zero() }).collect();
    let fc: Vec<_> = f.iter().map(|p| com(p, s)).collect();
    let mut t = WTr::<T> { t: Tr::new(), pend: vec![], drawn: 0, w: wk };
    t.feed(0, com(&pl.q[5], s).0);
    for (i, c) in fc.iter().enumerate() {
        t.feed(1 + i as u16, c.0);
    }
    let beta = t.draw();
    let gamma = t.draw();
    let beta = if let Over::Const(c) = wk.beta { c } else { beta };
    let gamma = match wk.gamma {
        Over::Fresh => gamma,
        Over::Const(c) => c,
        Over::Beta(c) => c * beta,
    };
    // a prover that knows alpha in time
    let early = wk.skip & M_Z != 0 || wk.late & M_Z != 0;
    let mut alpha = if early { t.draw() } else { Fr::one() };
    let weight = |alpha: Fr| wk.pow.map(|p| p.map_or(Fr::zero(), |p| alpha.pow([p])));

    // permutation polynomial
    let roots: Vec<Fr> = dom.elements().collect();
    let ks = [Fr::one(), pl.k1, pl.k2];
    let on = |p: &P| roots.iter().map(|r| p.evaluate(r)).collect::<Vec<Fr>>();
    let fv: Vec<Vec<Fr>> = pl.f.iter().map(on).collect();
    let sv: Vec<Vec<Fr>> = pl.s.iter().map(on).collect();
    let steps: Vec<(Fr, Fr)> = (0..n)
        .map(|i| {
            let (mut num, mut den) = (Fr::one(), Fr::one());
            for k in (0..3).filter(|k| wk.wires[*k]) {
                num *= fv[k][i] + beta * ks[k] * roots[i] + gamma;
                den *= fv[k][i] + beta * sv[k][i] + gamma;
            }
            (num, den)
        })
        .collect();
    let quot = |a: Fr, b: Fr| a * b.inverse().unwrap_or(Fr::zero());
    let product = |start: Fr, skip: usize| {
        let mut acc = vec![start];
        for (i, (a, b)) in steps.iter().enumerate().take(n - 1) {
            acc.push(if i < skip { Fr::one() } else { acc[i] * quot(*a, *b) });
        }
        acc
    };
    let gates: Vec<Fr> = if matches!(wk.z, ZMode::Solve(true) | ZMode::FirstGate) {
        let qv: Vec<Vec<Fr>> = q.iter().map(on).collect();
        (0..n).map(|i| fv[0][i] * qv[0][i] + fv[1][i] * qv[1][i] + fv[2][i] * qv[2][i] + fv[0][i] * fv[1][i] * qv[3][i] + qv[4][i] + qv[5][i]).collect()
    } else {
        vec![Fr::zero(); n]
    };
    let acc = match &wk.z {
        ZMode::Acc => product(Fr::one(), 0),
        ZMode::Const(c) => vec![*c; n],
        ZMode::Scaled(c) => product(*c, 0),
        ZMode::FirstGate => product(Fr::one() - gates[0], 0),
        ZMode::FromOne => {
            let mut acc = product(Fr::one(), 1);
            acc[0] = acc[n - 1] * quot(steps[n - 1].0, steps[n - 1].1);
            acc
        }
        ZMode::Solve(_) => {
            // z_i = x_i * z_0 + y_i
            let [wg, wp, ws] = weight(alpha);
            let (mut x, mut y) = (vec![Fr::one()], vec![Fr::zero()]);
            for i in 0..n {
                let mut a = wp * steps[i].0 * x[i];
                let mut b = wp * steps[i].0 * y[i] + wg * gates[i];
                if i == 0 {
                    a += ws;
                    b -= ws;
                }
                x.push(quot(a, wp * steps[i].1));
                y.push(quot(b, wp * steps[i].1));
            }
            let z0 = quot(y[n], Fr::one() - x[n]);
            (0..n).map(|i| x[i] * z0 + y[i]).collect()
        }
    };
    let z = &interp(&acc) + &blind(3);
    let mut pow = Fr::one();
    let zw = P::from_coefficients_vec(
        z.coeffs
            .iter()
            .map(|c| {
                let r = *c * pow;
                pow *= w;
                r
            })
            .collect(),
    );
    let z_com = com(&z, s);
    t.feed(4, z_com.0);
    if !early {
        alpha = t.draw();
    }
    t.flush();
    let [wg, wp, ws] = weight(alpha);

    // quotient
    let gate = &(&(&(&(&f[0] * &q[0]) + &(&f[1] * &q[1])) + &(&f[2] * &q[2])) + &(&(&f[0] * &f[1]) * &q[3])) + &(&q[4] + &q[5]);
    let mut num = z.clone();
    let mut den = zw.clone();
    for k in (0..3).filter(|k| wk.wires[*k]) {
        num = &num * &(&f[k] + &lin(gamma, beta * ks[k]));
        den = &den * &(&(&f[k] + &scale(&pl.s[k], beta)) + &konst(gamma));
    }
    let mut l1 = vec![Fr::zero(); n];
    l1[0] = Fr::one();
    let l1 = interp(&l1);
    let start = &l1 * &(&z - &konst(Fr::one()));
    let total = &(&scale(&gate, wg) + &scale(&(&num - &den), wp)) + &scale(&start, ws);
    let full = P::from_coefficients_vec({
        let mut v = vec![Fr::zero(); n + 1];
        v[0] = -Fr::one();
        v[n] = Fr::one();
        v
    });
    let zh = match wk.rows {
        Rows::All => full,
        Rows::Half if n > 1 => P::from_coefficients_vec({
            let mut v = vec![Fr::zero(); n / 2 + 1];
            v[0] = -Fr::one();
            v[n / 2] = Fr::one();
            v
        }),
        Rows::Half => full,
        Rows::ButFirst => div_linear(&full, Fr::one()),
        Rows::ButLast => div_linear(&full, roots[n - 1]),
    };
    let (tq, _) = ark_poly::univariate::DenseOrSparsePolynomial::from(total).divide_with_q_and_r(&zh.clone().into()).unwrap();
    let mut tc = tq.coeffs;
    tc.resize(tc.len().max(3 * (n + 2)), Fr::zero());
    let part = |a: &[Fr]| P::from_coefficients_vec(a.to_vec());
    let tp = [part(&tc[..n + 2]), part(&tc[n + 2..2 * n + 4]), part(&tc[2 * n + 4..])];
    let mut tcom: Vec<_> = tp.iter().map(|p| com(p, s)).collect();
    for (i, c) in tcom.iter().enumerate() {
        t.feed(M_T + i as u16, c.0);
    }
    let zeta = t.draw();

    let m = zeta.pow([n as u64 + 2]);
    let zhz = zh.evaluate(&zeta);
    let mut late = [Fr::zero(); 3];
    let lin_poly = |bar: &[Fr; 6], late: &[Fr; 3]| -> P {
        let l1z = l1.evaluate(&zeta);
        let mut r = &(&(&scale(&q[0], bar[0]) + &scale(&q[1], bar[1])) + &scale(&q[2], bar[2])) + &(&scale(&q[3], bar[0] * bar[1]) + &q[4]);
        r = &r + &konst(q[5].evaluate(&zeta));
        r = scale(&r, wg);
        let id = |k: usize| if wk.wires[k] { bar[k] + beta * ks[k] * zeta + gamma } else { Fr::one() };
        let sg = |k: usize| if wk.wires[k] { bar[k] + beta * bar[3 + k] + gamma } else { Fr::one() };
        r = &r + &scale(&z, wp * id(0) * id(1) * id(2) + ws * l1z);
        r = &r - &konst(ws * l1z);
        let last = if wk.wires[2] { &scale(&pl.s[2], beta) + &konst(bar[2] + gamma) } else { konst(Fr::one()) };
        r = &r - &scale(&last, wp * sg(0) * sg(1) * bar[5]);
        let tt = &(&(&tp[0] + &konst(late[0])) + &scale(&(&tp[1] + &konst(late[1])), m)) + &scale(&(&tp[2] + &konst(late[2])), m * m);
        &r - &scale(&tt, zhz)
    };
    let opened = [&f[0], &f[1], &f[2], &pl.s[0], &pl.s[1]];
    let truth = opened.map(|p| p.evaluate(&zeta));
    let mut bar = [truth[0], truth[1], truth[2], truth[3], truth[4], z.evaluate(&(zeta * w))];
    let batch = |bar: &[Fr; 6], late: &[Fr; 3], v: Fr| {
        let mut b = lin_poly(bar, late);
        for k in 0..5 {
            if let Some(e) = wk.open[k] {
                b = &b + &scale(&(opened[k] - &konst(bar[k])), v.pow([e]));
            }
        }
        b
    };
    if let Some(k) = wk.fix_t {
        let r = lin_poly(&bar, &late).evaluate(&zeta);
        late[k] = quot(r, zhz * m.pow([k as u64]));
        tcom[k] = KzgCommitment((G1Projective::from(tcom[k].0) + g1(late[k])).into_affine());
    }
    t.flush();
    let hidden = (wk.skip | wk.late) >> M_E & 63;
    let mut v = None;
    match &wk.solve {
        Solve::None => {}
        // affine in each evaluation
        Solve::One(k) => {
            if hidden == 0 {
                // the linearisation has to vanish by itself
                let mut at = |x: Fr| {
                    bar[*k] = x;
                    lin_poly(&bar, &late).evaluate(&zeta)
                };
                let (r0, r1) = (at(Fr::zero()), at(Fr::one()));
                bar[*k] = -quot(r0, r1 - r0);
            } else {
                for i in 0..6 {
                    if i != *k {
                        t.feed(M_E + i as u16, g1(bar[i]));
                    }
                }
                let vv = t.draw();
                v = Some(vv);
                let mut at = |x: Fr| {
                    bar[*k] = x;
                    batch(&bar, &late, vv).evaluate(&zeta)
                };
                let (r0, r1) = (at(Fr::zero()), at(Fr::one()));
                bar[*k] = -quot(r0, r1 - r0);
                t.feed(M_E + *k as u16, g1(bar[*k]));
            }
        }
        Solve::Pair(i, j) => {
            let old = bar;
            let mut at = |d: Fr| {
                bar = old;
                bar[*i] += d;
                bar[*j] -= d;
                lin_poly(&bar, &late).evaluate(&zeta)
            };
            let (r0, r1, r2) = (at(Fr::zero()), at(Fr::one()), at(Fr::from(2u64)));
            let two = Fr::from(2u64);
            // r0 + b d + c d^2
            let c = (r2 - r1 - r1 + r0) / two;
            let b = r1 - r0 - c;
            let d = if c.is_zero() {
                -quot(r0, b)
            } else {
                (b * b - two * two * c * r0).sqrt().map_or(Fr::zero(), |q| (q - b) / (two * c))
            };
            at(d);
        }
    }
    let v = v.unwrap_or_else(|| {
        for (i, e) in bar.iter().enumerate() {
            t.feed(M_E + i as u16, g1(*e));
        }
        t.draw()
    });
    t.flush();
    let b1 = batch(&bar, &late, v);
    let zz = &z - &konst(bar[5]);
    let (wx, wwx);
    let mut u = wk.u;
    let mut works = b1.evaluate(&zeta).is_zero() && (wk.u == Some(Fr::zero()) || zz.evaluate(&(zeta * w)).is_zero());
    if wk.joint {
        // one known combination of the two
        let u0 = *u.get_or_insert_with(|| t.draw());
        let k = quot(b1.evaluate(&zeta) + u0 * zz.evaluate(&zeta), u0 * (zeta - zeta * w));
        let sum = &(&b1 + &scale(&zz, u0)) - &scale(&lin(-zeta * w, Fr::one()), u0 * k);
        works = sum.evaluate(&zeta).is_zero();
        wx = com(&div_linear(&sum, zeta), s);
        wwx = KzgCommitment(g1(k));
    } else if wk.second {
        let k = quot(b1.evaluate(&(zeta * w)), zeta * w - zeta);
        wx = KzgCommitment(g1(k));
        t.feed(14, wx.0);
        let u0 = t.draw();
        u = Some(u0);
        let sum = &(&b1 + &scale(&zz, u0)) - &scale(&lin(-zeta, Fr::one()), k);
        works = sum.evaluate(&(zeta * w)).is_zero();
        wwx = com(&scale(&div_linear(&sum, zeta * w), quot(Fr::one(), u0)), s);
    } else {
        wx = com(&div_linear(&b1, zeta), s);
        wwx = com(&div_linear(&zz, zeta * w), s);
        t.feed(14, wx.0);
        t.feed(15, wwx.0);
        if u.is_none() {
            u = Some(t.draw());
        }
    }
    let proof = Proof {
        a_commit: fc[0].clone(),
        b_commit: fc[1].clone(),
        c_commit: fc[2].clone(),
        z_commit: z_com,
        t_lo_commit: tcom[0].clone(),
        t_mid_commit: tcom[1].clone(),
        t_hi_commit: tcom[2].clone(),
        w_ev_x_commit: wx,
        w_ev_wx_commit: wwx,
        bar_a: bar[0],
        bar_b: bar[1],
        bar_c: bar[2],
        bar_s_sigma_1: bar[3],
        bar_s_sigma_2: bar[4],
        bar_z_w: bar[5],
        u: u.unwrap(),
        degree: n + 1,
    };
    (proof, works)
}
