//! Generators and recipes shared by the checks.

use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{FftField, PrimeField};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};

/// A field element, as recorded in a case.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fe {
    Z,
    One,
    M1,
    /// small
    S(u32),
    /// minus small
    N(u32),
    /// 2^k
    P2(u8),
    /// 1/k
    Inv(u32),
    /// power e of the root of unity of order 2^k
    Root(u8, u8),
    /// random, from a seed
    R(u64),
    /// plus 2^k
    Sum(Box<Fe>, u8),
}

impl Fe {
    pub fn f<F: PrimeField + FftField>(&self) -> F {
        match self {
            Fe::Z => F::ZERO,
            Fe::One => F::ONE,
            Fe::M1 => -F::ONE,
            Fe::S(k) => F::from(*k),
            Fe::N(k) => -F::from(*k),
            Fe::P2(k) => F::from(2u64).pow([*k as u64]),
            Fe::Inv(k) => F::from(*k).inverse().unwrap_or(F::ONE),
            Fe::Root(k, e) => F::get_root_of_unity(1u64 << (k % 9)).unwrap().pow([*e as u64]),
            Fe::Sum(x, k) => x.f::<F>() + F::from(2u64).pow([*k as u64]),
            Fe::R(s) => F::rand(&mut StdRng::seed_from_u64(*s)),
        }
    }
}

pub fn fe() -> BoxedStrategy<Fe> {
    prop_oneof![
        2 => Just(Fe::Z),
        2 => Just(Fe::One),
        1 => Just(Fe::M1),
        3 => (2u32..40).prop_map(Fe::S),
        1 => any::<u32>().prop_map(Fe::S),
        1 => (2u32..40).prop_map(Fe::N),
        1 => any::<u8>().prop_map(Fe::P2),
        1 => (2u32..50).prop_map(Fe::Inv),
        1 => (0u8..9, any::<u8>()).prop_map(|(a, b)| Fe::Root(a, b)),
        8 => any::<u64>().prop_map(Fe::R),
    ]
    .boxed()
}

/// Non-zero, mostly random.
pub fn fe_nz() -> BoxedStrategy<Fe> {
    prop_oneof![
        1 => Just(Fe::One),
        1 => Just(Fe::M1),
        1 => (2u32..40).prop_map(Fe::S),
        1 => (2u32..40).prop_map(Fe::N),
        1 => any::<u8>().prop_map(Fe::P2),
        4 => any::<u64>().prop_map(Fe::R),
    ]
    .boxed()
}

/// A secret of a reference string; mostly generic.
pub fn secret() -> BoxedStrategy<Fe> {
    prop_oneof![
        6 => any::<u64>().prop_map(Fe::R),
        1 => (2u32..40).prop_map(Fe::S),
        1 => fe(),
    ]
    .boxed()
}

/// A coefficient list.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PolyR {
    Dense(Vec<Fe>),
    /// product of (X - root) times a constant
    Roots(Vec<Fe>, Fe),
    /// few non-zero coefficients
    Sparse(Vec<(u16, Fe)>),
    /// `len` random coefficients
    Rand(u16, u64),
    /// coefficients followed by zeros
    Trail(Vec<Fe>, u8),
}

impl PolyR {
    pub fn coeffs<F: PrimeField + FftField>(&self) -> Vec<F> {
        match self {
            PolyR::Dense(v) => v.iter().map(Fe::f).collect(),
            PolyR::Roots(r, c) => {
                let mut p = vec![c.f::<F>()];
                for r in r {
                    let r = r.f::<F>();
                    let mut q = vec![F::ZERO; p.len() + 1];
                    for (i, c) in p.iter().enumerate() {
                        q[i + 1] += *c;
                        q[i] -= r * c;
                    }
                    p = q;
                }
                p
            }
            PolyR::Sparse(t) => {
                let n = t.iter().map(|x| x.0 as usize + 1).max().unwrap_or(0);
                let mut p = vec![F::ZERO; n];
                for (i, c) in t {
                    p[*i as usize] = c.f();
                }
                p
            }
            PolyR::Rand(n, s) => {
                let mut rng = StdRng::seed_from_u64(*s);
                (0..*n).map(|_| F::rand(&mut rng)).collect()
            }
            PolyR::Trail(v, z) => {
                let mut p: Vec<F> = v.iter().map(Fe::f).collect();
                p.resize(p.len() + *z as usize, F::ZERO);
                p
            }
        }
    }
}

/// Polynomials with up to `n` coefficients.
pub fn poly(n: usize) -> BoxedStrategy<PolyR> {
    let m = n.max(1);
    prop_oneof![
        4 => prop::collection::vec(fe(), 0..=m.min(12)).prop_map(PolyR::Dense),
        3 => (prop::collection::vec(fe(), 0..m.min(10)), fe_nz()).prop_map(|(a, b)| PolyR::Roots(a, b)),
        2 => prop::collection::vec((0..m as u16, fe()), 0..4).prop_map(PolyR::Sparse),
        3 => (0..=m as u16, any::<u64>()).prop_map(|(a, b)| PolyR::Rand(a, b)),
        1 => (prop::collection::vec(fe(), 0..=m.min(8)), 0..4u8).prop_map(move |(a, z)| {
            let z = z.min((m - a.len().min(m)) as u8);
            PolyR::Trail(a, z)
        }),
    ]
    .boxed()
}

pub fn horner<F: PrimeField>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::ZERO, |a, c| a * x + c)
}

pub fn trim<F: PrimeField>(mut c: Vec<F>) -> Vec<F> {
    while c.last().is_some_and(|x| x.is_zero()) {
        c.pop();
    }
    c
}

pub fn g1(v: Fr) -> G1Affine {
    (G1Affine::generator() * v).into_affine()
}

/// Maps `x` to an index below `n` monotonically in `x`, so that shrinking `x` shrinks the index.
pub fn idx(x: u16, n: usize) -> usize {
    (x as usize * n) >> 16
}
