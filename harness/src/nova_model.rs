//! Nova: recipes of structures and pairs, and the exact satisfaction oracle.

use ark_bls12_381::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_std::rand::{rngs::StdRng, Rng, SeedableRng};
use kzg::commitment::KzgCommitment;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::r1cs::{FInstance, FWitness, R1CS};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::gen::*;

/// A constraint system.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    pub form: Form,
    pub io: u8,
    /// points of the reference string above what is needed
    pub slack: u8,
    pub s: Fe,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Form {
    /// entries of A, B, C: matrix, row, column, value
    Sparse { rows: u8, vars: u8, entries: Vec<(u8, u16, u16, Fe)>, ragged: bool },
    Dense { rows: u8, vars: u8, seed: u64 },
    /// each row defines the next variable as the product of two combinations of earlier ones
    Circuit { inputs: u8, ops: Vec<(u16, u16, Fe, u16, Fe)> },
    /// many rows, variables or public values: sparse, or a circuit with `vars` inputs
    Big { rows: u16, vars: u16, io: u16, circuit: bool, seed: u64 },
}

pub struct Setup {
    pub r1cs: R1CS<Fr>,
    pub scheme: KzgScheme,
    pub s: Fr,
    /// rows that define a variable
    pub defs: Option<usize>,
}
impl Setup {
    pub fn rows(&self) -> usize {
        self.r1cs.matrix_a.len()
    }
    pub fn com(&self, v: &[Fr]) -> KzgCommitment {
        KzgCommitment(g1(horner(v, self.s)))
    }
}

pub fn dot(row: &[Fr], z: &[Fr]) -> Fr {
    row.iter().zip(z).map(|(a, b)| *a * b).sum()
}
pub fn z(w: &[Fr], x: &[Fr], u: Fr) -> Vec<Fr> {
    [w, x, &[u]].concat()
}
/// Per constraint: (Az)(Bz) - u(Cz) - E.
pub fn violations(r: &R1CS<Fr>, w: &[Fr], x: &[Fr], u: Fr, e: &[Fr]) -> Vec<Fr> {
    let z = z(w, x, u);
    (0..r.matrix_a.len())
        .map(|i| dot(&r.matrix_a[i], &z) * dot(&r.matrix_b[i], &z) - u * dot(&r.matrix_c[i], &z) - e.get(i).copied().unwrap_or_default())
        .collect()
}
/// The cross term of two assignments.
pub fn cross(r: &R1CS<Fr>, u1: Fr, u2: Fr, z1: &[Fr], z2: &[Fr]) -> Vec<Fr> {
    (0..r.matrix_a.len())
        .map(|i| {
            let (a, b, c) = (&r.matrix_a[i], &r.matrix_b[i], &r.matrix_c[i]);
            dot(a, z1) * dot(b, z2) + dot(a, z2) * dot(b, z1) - u1 * dot(c, z2) - u2 * dot(c, z1)
        })
        .collect()
}
/// The satisfaction oracle. E may be written with zeros more or less at its end.
pub fn satisfied(k: &Setup, fi: &FInstance, fw: &FWitness) -> Result<(), String> {
    let r = &k.r1cs;
    if fw.w.len() != r.num_vars {
        return Err("length of W".into());
    }
    if fi.x.len() != r.num_io {
        return Err("length of x".into());
    }
    if trim(fw.e.clone()).len() > r.matrix_a.len() {
        return Err("length of E".into());
    }
    if let Some(i) = violations(r, &fw.w, &fi.x, fi.u, &fw.e).iter().position(|v| !v.is_zero()) {
        return Err(format!("constraint {i}"));
    }
    if fi.com_w != k.com(&fw.w) {
        return Err("commitment of W".into());
    }
    if fi.com_e != k.com(&fw.e) {
        return Err("commitment of E".into());
    }
    Ok(())
}

impl Shape {
    pub fn setup(&self) -> Setup {
        let io = match &self.form {
            Form::Big { io, .. } => *io as usize,
            _ => self.io as usize % 4,
        };
        let (r1cs, defs) = match &self.form {
            Form::Sparse { rows, vars, entries, ragged } => {
                let (rows, vars) = (*rows as usize % 13, *vars as usize % 9);
                let width = vars + io + 1;
                let mut m = vec![vec![vec![Fr::zero(); width]; rows]; 3];
                if rows > 0 {
                    for (k, i, j, v) in entries {
                        m[*k as usize % 3][idx(*i, rows)][idx(*j, width)] += v.f::<Fr>();
                    }
                }
                if *ragged {
                    // rows without the zeros at their ends
                    m.iter_mut().for_each(|m| m.iter_mut().for_each(|r| *r = trim(r.clone())));
                }
                (R1CS { matrix_c: m.pop().unwrap(), matrix_b: m.pop().unwrap(), matrix_a: m.pop().unwrap(), num_io: io, num_vars: vars }, None)
            }
            Form::Dense { rows, vars, seed } => {
                let (rows, vars) = (*rows as usize % 13, *vars as usize % 9);
                let width = vars + io + 1;
                let all = random(3 * rows * width, *seed);
                let m = |k: usize| (0..rows).map(|i| all[(k * rows + i) * width..][..width].to_vec()).collect::<Vec<_>>();
                (R1CS { matrix_a: m(0), matrix_b: m(1), matrix_c: m(2), num_io: io, num_vars: vars }, None)
            }
            Form::Circuit { inputs, ops } => {
                let (r1cs, inputs) = circuit(1 + *inputs as usize % 4, &ops[..ops.len().min(8)], io);
                (r1cs, Some(inputs))
            }
            Form::Big { rows, vars, io: _, circuit: true, seed } => {
                let mut rng = StdRng::seed_from_u64(*seed);
                let ops: Vec<_> = (0..*rows).map(|_| (rng.gen(), rng.gen(), Fe::R(rng.gen()), rng.gen(), Fe::R(rng.gen()))).collect();
                let (r1cs, inputs) = circuit(1 + *vars as usize, &ops, io);
                (r1cs, Some(inputs))
            }
            Form::Big { rows, vars, io: _, circuit: false, seed } => {
                let (rows, vars) = (*rows as usize, *vars as usize);
                let width = vars + io + 1;
                let mut rng = StdRng::seed_from_u64(*seed);
                let mut m = vec![vec![vec![Fr::zero(); width]; rows]; 3];
                for (k, m) in m.iter_mut().enumerate() {
                    for (i, r) in m.iter_mut().enumerate() {
                        // every column is used somewhere
                        let mut cols = vec![(i * (k + 1) + k) % width, width - 1 - i % width];
                        cols.extend((0..1 + i % 4).map(|_| rng.gen_range(0..width)));
                        cols.into_iter().for_each(|j| r[j] += Fr::from(rng.gen::<u64>()));
                    }
                }
                (R1CS { matrix_c: m.pop().unwrap(), matrix_b: m.pop().unwrap(), matrix_a: m.pop().unwrap(), num_io: io, num_vars: vars }, None)
            }
        };
        let s = self.s.f::<Fr>();
        let size = r1cs.matrix_a.len().max(r1cs.num_vars) + self.slack as usize % 8;
        let scheme = KzgScheme::new(Srs::new_from_secret(s, size));
        Setup { r1cs, scheme, s, defs }
    }
}
fn circuit(inputs: usize, ops: &[(u16, u16, Fe, u16, Fe)], io: usize) -> (R1CS<Fr>, usize) {
    let vars = inputs + ops.len();
    let width = vars + io + 1;
    let unit = |j: usize| {
        let mut r = vec![Fr::zero(); width];
        r[j] = Fr::one();
        r
    };
    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
    for (k, (i, j, p, l, q)) in ops.iter().enumerate() {
        let known = inputs + k;
        let mut ra = unit(idx(*i, known));
        ra[idx(*j, known)] += p.f::<Fr>();
        let mut rb = unit(idx(*l, known));
        rb[width - 1] += q.f::<Fr>();
        a.push(ra);
        b.push(rb);
        c.push(unit(known));
    }
    for k in 0..io {
        // x_k is a copy of a late variable
        a.push(unit(vars - 1 - k % vars));
        b.push(unit(width - 1));
        c.push(unit(vars + k));
    }
    (R1CS { matrix_a: a, matrix_b: b, matrix_c: c, num_io: io, num_vars: vars }, inputs)
}
fn random(n: usize, seed: u64) -> Vec<Fr> {
    let mut rng = StdRng::seed_from_u64(seed);
    (0..n).map(|_| Fr::rand(&mut rng)).collect()
}
/// Structures with many rows, variables, or public values.
pub fn bigs() -> Vec<Shape> {
    [
        (17, 9, 2, true),
        (40, 3, 1, true),
        (64, 1, 3, true),
        (65, 64, 1, true),
        (100, 20, 5, true),
        (130, 7, 33, true),
        (260, 3, 1, true),
        (20, 50, 8, false),
        (64, 64, 1, false),
        (70, 30, 17, false),
        (33, 128, 4, false),
        (130, 129, 2, false),
        (3, 5, 70, false),
        (3, 300, 1, false),
        (300, 2, 0, false),
        (520, 4, 2, true),
        (1030, 1, 1, true),
        (2, 3, 270, false),
    ]
    .iter()
    .enumerate()
    .map(|(n, (rows, vars, io, circuit))| Shape {
        form: Form::Big { rows: *rows, vars: *vars, io: *io, circuit: *circuit, seed: n as u64 },
        io: 0,
        slack: (n % 3) as u8,
        s: Fe::R(90 + n as u64),
    })
    .collect()
}

/// A pair: satisfied by construction, whatever the values.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PairR {
    /// E from the values
    Relaxed { w: u64, few: Vec<Fe>, u: Fe },
    /// u = 1 and E = 0 where the structure is a circuit, otherwise as above with u = 1
    Fresh { w: u64, few: Vec<Fe> },
    Trivial,
    /// W = 0 but u and x not
    Zero { u: Fe },
}
fn values(n: usize, seed: u64, few: &[Fe]) -> Vec<Fr> {
    let mut v = random(n, seed);
    for (a, b) in v.iter_mut().zip(few) {
        *a = b.f();
    }
    v
}
impl PairR {
    pub fn pair(&self, k: &Setup) -> (FWitness, FInstance) {
        let r = &k.r1cs;
        let (w, x, u) = match self {
            PairR::Trivial => {
                let (w, i) = nova::r1cs::create_trivial_pair(r.num_io, r.num_vars, &k.scheme);
                return (w, i);
            }
            PairR::Relaxed { w, few, u } => {
                let v = values(r.num_vars + r.num_io, *w, few);
                (v[..r.num_vars].to_vec(), v[r.num_vars..].to_vec(), u.f())
            }
            PairR::Zero { u } => (vec![Fr::zero(); r.num_vars], values(r.num_io, 3, &[]), u.f()),
            PairR::Fresh { w, few } => match k.defs {
                Some(inputs) => {
                    let mut w = values(r.num_vars, *w, few);
                    for i in inputs..r.num_vars {
                        let zz = z(&w, &vec![Fr::zero(); r.num_io], Fr::one());
                        w[i] = dot(&r.matrix_a[i - inputs], &zz) * dot(&r.matrix_b[i - inputs], &zz);
                    }
                    let x = (0..r.num_io).map(|k| w[r.num_vars - 1 - k % r.num_vars]).collect();
                    (w, x, Fr::one())
                }
                None => {
                    let v = values(r.num_vars + r.num_io, *w, few);
                    (v[..r.num_vars].to_vec(), v[r.num_vars..].to_vec(), Fr::one())
                }
            },
        };
        let e = violations(r, &w, &x, u, &[]);
        let i = FInstance { com_e: k.com(&e), u, com_w: k.com(&w), x };
        (FWitness { e, w }, i)
    }
}

pub fn shape() -> BoxedStrategy<Shape> {
    let form = prop_oneof![
        3 => (0u8..=8, 0u8..=6, prop::collection::vec((0u8..3, any::<u16>(), any::<u16>(), fe()), 0..24), any::<bool>())
            .prop_map(|(rows, vars, entries, ragged)| Form::Sparse { rows, vars, entries, ragged }),
        2 => (0u8..=8, 0u8..=6, any::<u64>()).prop_map(|(rows, vars, seed)| Form::Dense { rows, vars, seed }),
        4 => circuit_form(),
    ];
    (form, 0u8..4, 0u8..4, generic_secret()).prop_map(|(form, io, slack, s)| Shape { form, io, slack, s }).boxed()
}
fn circuit_form() -> BoxedStrategy<Form> {
    let op = (any::<u16>(), any::<u16>(), fe(), any::<u16>(), fe());
    (0u8..4, prop::collection::vec(op, 0..6)).prop_map(|(inputs, ops)| Form::Circuit { inputs, ops }).boxed()
}
/// A circuit with one public value.
pub fn ivc_shape() -> BoxedStrategy<Shape> {
    (circuit_form(), 0u8..4, generic_secret()).prop_map(|(form, slack, s)| Shape { form, io: 1, slack, s }).boxed()
}
pub fn generic_secret() -> BoxedStrategy<Fe> {
    any::<u64>().prop_map(Fe::R).boxed()
}
pub fn pair() -> BoxedStrategy<PairR> {
    let few = || prop::collection::vec(fe(), 0..4);
    prop_oneof![
        4 => (any::<u64>(), few(), fe()).prop_map(|(w, few, u)| PairR::Relaxed { w, few, u }),
        4 => (any::<u64>(), few()).prop_map(|(w, few)| PairR::Fresh { w, few }),
        1 => Just(PairR::Trivial),
        1 => fe().prop_map(|u| PairR::Zero { u }),
    ]
    .boxed()
}
/// Mostly not degenerate.
pub fn full_pair() -> BoxedStrategy<PairR> {
    prop_oneof![
        4 => (any::<u64>(), fe_nz()).prop_map(|(w, u)| PairR::Relaxed { w, few: vec![], u }),
        3 => any::<u64>().prop_map(|w| PairR::Fresh { w, few: vec![] }),
        1 => pair(),
    ]
    .boxed()
}
pub fn lin(a: &[Fr], b: &[Fr], r: Fr) -> Vec<Fr> {
    (0..a.len().max(b.len())).map(|i| a.get(i).copied().unwrap_or_default() + r * b.get(i).copied().unwrap_or_default()).collect()
}
/// Unused values would be an error of the recipe.
pub fn nonzero(v: &[Fr]) -> bool {
    v.iter().any(|x| !x.is_zero())
}
pub fn inv(x: Fr) -> Fr {
    x.inverse().unwrap_or(Fr::one())
}
