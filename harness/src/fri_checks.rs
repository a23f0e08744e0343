//! FRI: completeness, reference execution, soundness of the verifier, Merkle trees,
//! the field, and robustness of the verifier.

use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use ark_poly::univariate::DensePolynomial;
use ark_poly::{DenseUVPolynomial, EvaluationDomain, GeneralEvaluationDomain};
use digest_11::Digest;
use fri::fiat_shamir::transcript::Transcript;
use fri::fields::goldilocks::Fq as Gold;
use fri::prover::{generate_proof, Decommitment, Proof};
use fri::verifier::verify;
#[cfg(feature = "hooks")]
use fri::verif_hooks::{verify_merkle_proof, MerkleProof, MerkleTree};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2_11::{Sha256, Sha512};

use crate::digests::{Fixed11, Salted11, Short11};
use crate::fw::{catch, Check, Cx, DynSub, Sub, R};
use crate::gen::*;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "F01" => f01(),
        "F02" => f02(),
        "F03" => f03(),
        "F04" => f04(),
        "F06" => f06(),
        "V01" => v01(),
        _ => return None,
    })
}

const FIELDS: &str = "field and domain arithmetic of the ark crates";

/// Fields of other sizes that a caller may choose.
#[derive(ark_ff::MontConfig)]
#[modulus = "340282366920938463463374557953744961537"]
#[generator = "3"]
pub struct F128Config;
pub type F128 = ark_ff::Fp128<ark_ff::MontBackend<F128Config, 2>>;
#[derive(ark_ff::MontConfig)]
#[modulus = "2013265921"]
#[generator = "31"]
pub struct F31Config;
pub type F31 = ark_ff::Fp64<ark_ff::MontBackend<F31Config, 1>>;

/// Calls `f::<Digest, Field>(args)` for the digest and field of the setting.
macro_rules! with {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match ($k.field % 4, $k.digest % 5) {
            (0, 0) => $f::<Sha256, Gold>($($a),*),
            (0, 1) => $f::<Sha512, Gold>($($a),*),
            (0, 2) => $f::<Salted11<7>, Gold>($($a),*),
            (0, 3) => $f::<Fixed11, Gold>($($a),*),
            (0, _) => $f::<Short11, Gold>($($a),*),
            (1, 0) => $f::<Sha256, Fr>($($a),*),
            (1, 1) => $f::<Sha512, Fr>($($a),*),
            (1, 2) => $f::<Salted11<7>, Fr>($($a),*),
            (1, 3) => $f::<Fixed11, Fr>($($a),*),
            (1, _) => $f::<Short11, Fr>($($a),*),
            (2, _) => $f::<Sha256, F128>($($a),*),
            (_, _) => $f::<Sha256, F31>($($a),*),
        }
    };
}

/// What to prove.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setting {
    poly: PolyR,
    blowup: u16,
    queries: u16,
    field: u8,
    digest: u8,
}
impl Setting {
    pub fn field(&self) -> u8 {
        self.field
    }
    fn poly<F: PrimeField>(&self) -> DensePolynomial<F> {
        DensePolynomial::from_coefficients_vec(self.poly.coeffs())
    }
    pub fn prove<T: Digest + Default, F: PrimeField>(&self) -> Proof<F> {
        generate_proof::<T, F>(self.poly(), self.blowup as usize, self.queries as usize)
    }
}

fn digest() -> BoxedStrategy<u8> {
    prop_oneof![6 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 2 => Just(3u8), 1 => Just(4u8)].boxed()
}
pub fn setting(coeffs: usize, queries: u16) -> BoxedStrategy<Setting> {
    let blow = prop_oneof![4 => 1u16..=4, 2 => Just(1u16), 1 => 5u16..=9, 1 => prop_oneof![Just(8u16), Just(16), Just(32)]];
    (
        prop_oneof![1 => poly(3), 3 => poly(9), 2 => poly(coeffs)],
        blow,
        prop_oneof![4 => 1..=queries, 1 => 0u16..=2],
        prop_oneof![12 => Just(0u8), 8 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
        digest(),
    )
        .prop_map(|(poly, blowup, queries, field, digest)| Setting { poly, blowup, queries, field, digest })
        .boxed()
}
fn set(poly: PolyR, blowup: u16, queries: u16, field: u8, digest: u8) -> Setting {
    Setting { poly, blowup, queries, field, digest }
}
fn settings() -> Vec<Setting> {
    let mut v = Vec::new();
    for field in 0..4 {
        for (n, b) in [(0, 1), (0, 7), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 5), (4, 2), (5, 3), (8, 1), (16, 4), (17, 1), (64, 2), (100, 3)] {
            v.push(set(PolyR::Rand(n, 5), b, 3, field, 0));
        }
        v.push(set(PolyR::Rand(8, 1), 2, 0, field, 0));
        v.push(set(PolyR::Rand(4, 1), 1, 200, field, 0));
        v.push(set(PolyR::Dense(vec![Fe::Z, Fe::Z, Fe::Z, Fe::One]), 2, 5, field, 0));
        v.push(set(PolyR::Trail(vec![Fe::One, Fe::S(2)], 3), 2, 5, field, 0));
        for d in 0..5 {
            v.push(set(PolyR::Rand(6, 9), 2, 4, field, d));
        }
    }
    v
}

/// Large domains, blowup factors and numbers of queries.
fn large_settings() -> Vec<Setting> {
    let mut v = Vec::new();
    for (k, (n, b, q)) in [
        (2, 64, 3), (2, 100, 5), (1, 128, 4), (3, 255, 4), (1, 256, 4), (1, 257, 4), (2, 1000, 6), (4, 33, 10), (5, 48, 2),
        (8, 2, 63), (8, 2, 64), (8, 2, 65), (9, 2, 100), (8, 1, 255), (8, 1, 256), (8, 1, 257), (20, 2, 300), (3, 3, 1000),
        (127, 1, 3), (128, 1, 3), (129, 1, 3), (255, 2, 5), (256, 2, 5), (257, 2, 5), (511, 1, 9), (512, 2, 9), (513, 2, 9), (1023, 1, 7), (1024, 2, 7), (1025, 2, 7),
    ]
    .into_iter()
    .enumerate()
    {
        v.push(set(PolyR::Rand(n, 3), b, q, (k % 2) as u8, (k / 2 % 3) as u8));
        v.push(set(PolyR::Sparse(vec![(0, Fe::One), (n - 1, Fe::S(3))]), b, q, (k % 2) as u8 ^ 1, 0));
    }
    v
}

fn clone_proof<F: PrimeField>(p: &Proof<F>) -> Proof<F> {
    p.clone()
}
/// The verifier's verdict; a panic is an error of the outer kind.
pub fn judge<T: Digest + Default, F: PrimeField>(p: &Proof<F>) -> Result<Result<(), String>, String> {
    catch(|| verify::<T, F>(clone_proof(p)))
}

// ---------------------------------------------------------------- F01

fn f01_run(c: &Setting, cx: &mut Cx) -> R {
    with!(c, f01_case(c, cx))
}
fn f01_case<T: Digest + Default, F: PrimeField>(c: &Setting, cx: &mut Cx) -> R {
    let p = c.prove::<T, F>();
    cx.label(format!("layers {}", p.layers_root.len()));
    cx.label_if(c.poly::<F>().coeffs.is_empty(), "zero polynomial");
    cx.label_if(c.queries == 0, "no queries");
    cx.nt(p.layers_root.len() >= 2 && c.queries > 0);
    match judge::<T, F>(&p) {
        Ok(Ok(())) => (),
        Ok(Err(m)) => return Err(format!("an honest proof is rejected: {m}").into()),
        Err(m) => return Err(format!("the verifier panics on an honest proof: {m}").into()),
    }
    let q = c.prove::<T, F>();
    ensure!(format!("{p:?}") == format!("{q:?}"), "two proofs of the same polynomial differ");
    Ok(())
}
fn f01() -> Check {
    Check {
        id: "F01",
        assumptions: vec![FIELDS],
        subs: vec![
            Box::new(Sub {
                name: "honest",
                rule: "a polynomial of up to 70 coefficients (dense, sparse, chosen roots, with zeros at the end), a blowup factor from 1 to 32, 0 to 24 queries, four fields (31 to 255 bits) and five digests (one of constant output, one of 20 bytes); the proof must verify and proving again must give the same proof. Non-trivial: two or more layers and a query.",
                quick: 40000,
                thorough: 60000,
                examples: settings(),
                strat: || setting(70, 24),
                run: f01_run,
            }),
            Box::new(Sub {
                name: "large",
                rule: "domains of up to 2^12 (quick) points. Non-trivial: two or more layers and a query.",
                quick: 250,
                thorough: 400,
                examples: large_settings().into_iter().chain([set(PolyR::Rand(1024, 1), 4, 30, 0, 0), set(PolyR::Rand(2049, 1), 2, 30, 0, 0), set(PolyR::Rand(5000, 1), 1, 90, 0, 0)]).collect(),
                strat: || {
                    (100u16..1200, any::<u64>(), 1u16..=4, 1u16..80, 0u8..2, digest())
                        .prop_map(|(n, s, b, q, f, d)| set(PolyR::Rand(n, s), b, q, f, d))
                        .boxed()
                },
                run: f01_run,
            }),
        ],
    }
}

// ---------------------------------------------------------------- reference execution

/// The layers' evaluations, the constant, the folding challenges and the positions of an honest
/// execution on `first`, with the transcript's challenges for the given roots.
struct Reference<F: PrimeField> {
    layers: Vec<Vec<F>>,
    constant: F,
    positions: Vec<usize>,
}

fn root_of_unity<F: PrimeField>(n: usize) -> F {
    F::get_root_of_unity(n as u64).expect("domain")
}
/// Values at coset * w^i, i below n.
fn evaluations<F: PrimeField>(coeffs: &[F], coset: F, n: usize) -> Vec<F> {
    let w = root_of_unity::<F>(n);
    let mut x = coset;
    (0..n)
        .map(|_| {
            let v = horner(coeffs, x);
            x *= w;
            v
        })
        .collect()
}
/// Folds evaluations over coset * <w_n> by r.
fn fold<F: PrimeField>(e: &[F], coset: F, r: F) -> Vec<F> {
    let n = e.len();
    let w = root_of_unity::<F>(n);
    let half = F::from(2u64).inverse().unwrap();
    let mut x = coset;
    (0..n / 2)
        .map(|i| {
            let (a, b) = (e[i], e[i + n / 2]);
            let v = (a + b) * half + r * (a - b) * half * x.inverse().unwrap();
            x *= w;
            v
        })
        .collect()
}
fn reference<T: Digest + Default, F: PrimeField>(coeffs: &[F], p: &Proof<F>, blowup: usize, queries: usize) -> Result<Reference<F>, String> {
    let n = (coeffs.len() * blowup).next_power_of_two();
    if p.domain_size != n {
        return Err(format!("the domain has {} points instead of {n}", p.domain_size));
    }
    let k = n.ilog2() as usize;
    if p.layers_root.len() != k {
        return Err(format!("{} layers instead of {k}", p.layers_root.len()));
    }
    if p.coset.is_zero() || p.coset.pow([n as u64]).is_one() {
        return Err("the coset is no proper coset of the domain".into());
    }
    let mut t = Transcript::<T, F>::new(F::ZERO);
    let mut coset = p.coset;
    let mut layer = evaluations(coeffs, coset, n);
    // the coefficients, folded as a second opinion
    let mut co = coeffs.to_vec();
    let mut layers = Vec::new();
    for root in &p.layers_root {
        t.digest(*root);
        let r = t.generate_a_challenge();
        let next = fold(&layer, coset, r);
        layers.push(std::mem::replace(&mut layer, next));
        coset.square_in_place();
        co = (0..co.len().div_ceil(2)).map(|i| co[2 * i] + r * co.get(2 * i + 1).copied().unwrap_or_default()).collect();
    }
    let constant = layer[0];
    assert_eq!(constant, co.first().copied().unwrap_or_default(), "the reference disagrees with itself");
    t.digest(constant);
    let positions = if k == 0 { vec![] } else { t.generate_challenge_list_usize(queries).into_iter().map(|v| v % n).collect() };
    Ok(Reference { layers, constant, positions })
}

fn f02_run(c: &Setting, cx: &mut Cx) -> R {
    with!(c, f02_case(c, cx))
}
fn f02_case<T: Digest + Default, F: PrimeField>(c: &Setting, cx: &mut Cx) -> R {
    let p = c.prove::<T, F>();
    let coeffs = trim(c.poly.coeffs::<F>());
    let r = reference::<T, F>(&coeffs, &p, c.blowup as usize, c.queries as usize)?;
    cx.label(format!("layers {}", r.layers.len()));
    cx.nt(r.layers.len() >= 2 && c.queries > 0);
    ensure!(p.const_val == r.constant, "the constant is not the polynomial folded by the challenges");
    ensure!(p.number_of_queries == c.queries as usize, "the proof states {} queries instead of {}", p.number_of_queries, c.queries);
    ensure!(p.decommitment_list.len() == r.positions.len(), "{} decommitments for {} queries", p.decommitment_list.len(), r.positions.len());
    #[cfg(feature = "hooks")]
    let trees: Vec<MerkleTree<F>> = r.layers.iter().map(|l| MerkleTree::new(l.clone())).collect();
    #[cfg(feature = "hooks")]
    for (k, t) in trees.iter().enumerate() {
        ensure!(t.root() == p.layers_root[k], "the root of layer {k} is not that of its evaluations");
    }
    for (q, (pos, d)) in r.positions.iter().zip(&p.decommitment_list).enumerate() {
        for (what, len) in [("evaluations", d.evaluations.len()), ("paths", d.auth_paths.len()), ("mirror evaluations", d.sym_evaluations.len()), ("mirror paths", d.sym_auth_paths.len())] {
            ensure!(len == r.layers.len(), "query {q} has {len} {what}");
        }
        for (k, layer) in r.layers.iter().enumerate() {
            let n = layer.len();
            let (i, j) = (pos % n, (pos + n / 2) % n);
            for (side, at, e, path) in [("", i, &d.evaluations[k], &d.auth_paths[k]), ("mirror ", j, &d.sym_evaluations[k], &d.sym_auth_paths[k])] {
                ensure!(*e == layer[at], "query {q} layer {k}: the {side}evaluation is not that of position {at}");
                ensure!(path.index == at && path.leaf_val == layer[at], "query {q} layer {k}: the {side}path is of another position or value");
                #[cfg(feature = "hooks")]
                {
                    ensure!(format!("{path:?}") == format!("{:?}", trees[k].generate_proof(at)), "query {q} layer {k}: the {side}path is not the tree's");
                    ensure!(verify_merkle_proof(path), "query {q} layer {k}: the {side}path does not verify");
                }
            }
        }
    }
    let mut seen = r.positions.clone();
    seen.sort();
    seen.dedup();
    cx.label_if(seen.len() > 1, "several positions");
    Ok(())
}
fn f02() -> Check {
    Check {
        id: "F02",
        assumptions: vec![FIELDS, "the transcript and the Merkle tree, which F05 and F04 check"],
        subs: vec![Box::new(Sub {
            name: "reference",
            rule: "a polynomial, blowup and number of queries as in F01; every public part of the proof must be that of an independent execution, which evaluates over the proof's coset and folds the evaluations. Non-trivial: two or more layers and a query.",
            quick: 50000,
            thorough: 60000,
            examples: settings().into_iter().chain(large_settings()).collect(),
            strat: || setting(70, 24),
            run: f02_run,
        })],
    }
}

// ---------------------------------------------------------------- F03

/// Whether an honest execution on the committed layers would show this proof.
#[cfg(feature = "hooks")]
pub fn consistent<T: Digest + Default, F: PrimeField>(p: &Proof<F>) -> Result<(), String> {
    let n = p.domain_size;
    if !n.is_power_of_two() || n.ilog2() > F::TWO_ADICITY {
        return Err("domain".into());
    }
    let k = n.ilog2() as usize;
    if p.coset.is_zero() {
        return Err("coset".into());
    }
    if p.layers_root.len() != k {
        return Err("layers".into());
    }
    if k == 0 {
        return if p.decommitment_list.is_empty() { Ok(()) } else { Err("decommitments without layers".into()) };
    }
    if p.decommitment_list.len() != p.number_of_queries {
        return Err("decommitments".into());
    }
    let mut t = Transcript::<T, F>::new(F::ZERO);
    let mut rs = Vec::new();
    for root in &p.layers_root {
        t.digest(*root);
        rs.push(t.generate_a_challenge());
    }
    t.digest(p.const_val);
    let positions = t.generate_challenge_list_usize(p.number_of_queries);
    for (pos, d) in positions.into_iter().zip(&p.decommitment_list) {
        if [d.evaluations.len(), d.sym_evaluations.len(), d.auth_paths.len(), d.sym_auth_paths.len()] != [k; 4] {
            return Err("lengths".into());
        }
        let mut coset = p.coset;
        for l in 0..k {
            let m = n >> l;
            let (i, j) = (pos % m, (pos + m / 2) % m);
            for (at, e, path) in [(i, d.evaluations[l], &d.auth_paths[l]), (j, d.sym_evaluations[l], &d.sym_auth_paths[l])] {
                let (nodes, root) = path.path_and_root();
                if root != p.layers_root[l] || path.index != at || path.leaf_val != e || nodes.len() != k - l || !verify_merkle_proof(path) {
                    return Err(format!("authentication in layer {l}"));
                }
            }
            let w = root_of_unity::<F>(m).pow([i as u64]) * coset;
            let (a, b) = (d.evaluations[l], d.sym_evaluations[l]);
            let half = F::from(2u64).inverse().unwrap();
            let v = (a + b) * half + rs[l] * (a - b) * half * w.inverse().unwrap();
            if v != if l + 1 < k { d.evaluations[l + 1] } else { p.const_val } {
                return Err(format!("folding of layer {l}"));
            }
            coset.square_in_place();
        }
    }
    Ok(())
}

#[cfg(feature = "hooks")]
pub mod f03x {
    use super::*;

    /// Where something of a decommitment is: query, layer, mirror side.
    pub type At = (u16, u16, bool);

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Mut {
        /// add to the evaluation, the path's leaf, or both
        Value(At, Fe, bool, bool),
        /// a part set to a value: 0 evaluation, 1 leaf, 2 both, 3 path's root, 4 layer's root, 5 a node, 6 the constant,
        /// 7 the coset, 8 all of a query's evaluations, 9 all of its leaves, 10 both of these
        Put(At, u8, Fe),
        /// ... set to the same kind of part at another place, or negated
        Take(At, u8, At),
        Negate(At, u8),
        /// the path's index plus a number
        Index(At, u32),
        Swap(u16, u16),
        SwapAll(u16),
        /// both sides of a layer, values only
        SwapValues(u16, u16),
        CopyQuery(u16, u16),
        SwapQueries(u16, u16),
        RotateQueries,
        DropQuery(u16, bool),
        DupQuery(u16, bool),
        DropAll(bool),
        Root(u16, Fe),
        /// the root of the layer, and of all paths of that layer
        RootEverywhere(u16, Fe),
        SwapRoots(u16, u16),
        DropRoot(u16),
        DupRoot(u16),
        PushRoot(Fe),
        Const(Fe),
        Domain(u8),
        DomainAny(u32),
        Queries(u8),
        /// list 0..4 of a query: drop, push a copy of, or swap entries
        DropEntry(u16, u8, u16),
        PushEntry(u16, u8),
        SwapEntries(u16, u8, u16, u16),
        DropLayerOf(u16, u16),
        /// the first or last layer everywhere, with the domain to match
        CutFirst,
        CutLast(bool),
        /// the path's nodes
        Node(At, u16, Fe),
        SwapNodes(At),
        DropNode(At, u16),
        PushNode(At, Fe),
        PathRoot(At, Fe),
        /// the path from another place
        GraftPath(At, At),
        GraftBoth(At, At),
        /// the other side's path for both
        OneSide(u16, u16, bool),
        /// all of layer a at layer b, in one query
        GraftLayer(u16, u16, u16),
        Coset(Fe),
        /// a value and the folding of all later layers by it, with paths' leaves to match
        Refold(u16, u16, bool, Fe),
        /// change the mirror value so that the folding gives the value plus the error, and carry on
        Compensate(u16, u16, Fe),
    }

    fn at(p: &Proof<impl PrimeField>, a: &At) -> Option<(usize, usize)> {
        let q = p.decommitment_list.len();
        if q == 0 {
            return None;
        }
        let q = idx(a.0, q);
        let d = &p.decommitment_list[q];
        let l = d.evaluations.len().min(d.auth_paths.len()).min(d.sym_evaluations.len()).min(d.sym_auth_paths.len());
        if l == 0 {
            return None;
        }
        Some((q, idx(a.1, l)))
    }
    fn path<'a, F: PrimeField>(p: &'a mut Proof<F>, a: &At) -> Option<&'a mut MerkleProof<F>> {
        let (q, l) = at(p, a)?;
        let d = &mut p.decommitment_list[q];
        Some(if a.2 { &mut d.sym_auth_paths[l] } else { &mut d.auth_paths[l] })
    }
    fn part<F: PrimeField>(p: &mut Proof<F>, a: &At, what: u8, mut f: impl FnMut(F) -> F) -> Option<()> {
        let (q, l) = at(p, a)?;
        let d = &mut p.decommitment_list[q];
        let (evals, paths) = if a.2 { (&mut d.sym_evaluations, &mut d.sym_auth_paths) } else { (&mut d.evaluations, &mut d.auth_paths) };
        match what % 11 {
            0 => evals[l] = f(evals[l]),
            1 => paths[l].leaf_val = f(paths[l].leaf_val),
            2 => {
                evals[l] = f(evals[l]);
                paths[l].leaf_val = evals[l];
            }
            3 => {
                let (nodes, root) = paths[l].path_and_root();
                paths[l] = rebuild(&paths[l], nodes.to_vec(), f(root));
            }
            4 => {
                let l = l.min(p.layers_root.len().checked_sub(1)?);
                p.layers_root[l] = f(p.layers_root[l]);
            }
            5 => {
                let (nodes, root) = paths[l].path_and_root();
                let mut nodes = nodes.to_vec();
                let i = idx(a.0 ^ a.1, nodes.len().max(1));
                let v = nodes.get_mut(i)?;
                *v = f(*v);
                paths[l] = rebuild(&paths[l], nodes, root);
            }
            6 => p.const_val = f(p.const_val),
            7 => p.coset = f(p.coset),
            8 => evals.iter_mut().for_each(|v| *v = f(*v)),
            9 => paths.iter_mut().for_each(|v| v.leaf_val = f(v.leaf_val)),
            _ => {
                for (e, q) in evals.iter_mut().zip(paths.iter_mut()) {
                    *e = f(*e);
                    q.leaf_val = *e;
                }
            }
        }
        Some(())
    }
    fn rebuild<F: PrimeField>(m: &MerkleProof<F>, nodes: Vec<F>, root: F) -> MerkleProof<F> {
        MerkleProof::from_parts(m.index, m.leaf_val, nodes, root)
    }
    fn drop_at<T>(v: &mut Vec<T>, i: u16) {
        if !v.is_empty() {
            v.remove(idx(i, v.len()));
        }
    }
    fn swap_at<T>(v: &mut [T], i: u16, j: u16) {
        if !v.is_empty() {
            v.swap(idx(i, v.len()), idx(j, v.len()));
        }
    }
    fn push_copy<T: Clone>(v: &mut Vec<T>) {
        if let Some(x) = v.last().cloned() {
            v.push(x);
        }
    }

    pub fn apply<T: Digest + Default, F: PrimeField>(p: &mut Proof<F>, m: &Mut) -> Option<()> {
        match m {
            Mut::Value(a, d, value, leaf) => {
                let d = d.f::<F>();
                let (q, l) = at(p, a)?;
                if *value {
                    let dec = &mut p.decommitment_list[q];
                    *(if a.2 { &mut dec.sym_evaluations[l] } else { &mut dec.evaluations[l] }) += d;
                }
                if *leaf {
                    path(p, a)?.leaf_val += d;
                }
            }
            Mut::Put(a, what, d) => part(p, a, *what, |_| d.f())?,
            Mut::Negate(a, what) => part(p, a, *what, |v| -v)?,
            Mut::Take(a, what, b) => {
                let mut x = F::ZERO;
                part(p, b, *what, |v| {
                    x = v;
                    v
                })?;
                part(p, a, *what, |_| x)?
            }
            Mut::Index(a, d) => {
                let m = path(p, a)?;
                m.index = m.index.wrapping_add(*d as usize);
            }
            Mut::Swap(q, l) => {
                let (q, l) = at(p, &(*q, *l, false))?;
                let d = &mut p.decommitment_list[q];
                std::mem::swap(&mut d.evaluations[l], &mut d.sym_evaluations[l]);
                std::mem::swap(&mut d.auth_paths[l], &mut d.sym_auth_paths[l]);
            }
            Mut::SwapAll(q) => {
                let (q, _) = at(p, &(*q, 0, false))?;
                let d = &mut p.decommitment_list[q];
                std::mem::swap(&mut d.evaluations, &mut d.sym_evaluations);
                std::mem::swap(&mut d.auth_paths, &mut d.sym_auth_paths);
            }
            Mut::SwapValues(q, l) => {
                let (q, l) = at(p, &(*q, *l, false))?;
                let d = &mut p.decommitment_list[q];
                std::mem::swap(&mut d.evaluations[l], &mut d.sym_evaluations[l]);
                let x = d.auth_paths[l].leaf_val;
                d.auth_paths[l].leaf_val = d.sym_auth_paths[l].leaf_val;
                d.sym_auth_paths[l].leaf_val = x;
            }
            Mut::CopyQuery(a, b) => {
                let n = p.decommitment_list.len();
                if n > 0 {
                    p.decommitment_list[idx(*b, n)] = p.decommitment_list[idx(*a, n)].clone();
                }
            }
            Mut::SwapQueries(a, b) => swap_at(&mut p.decommitment_list, *a, *b),
            Mut::RotateQueries => {
                if !p.decommitment_list.is_empty() {
                    p.decommitment_list.rotate_left(1)
                }
            }
            Mut::DropQuery(i, count) => {
                drop_at(&mut p.decommitment_list, *i);
                if *count {
                    p.number_of_queries = p.decommitment_list.len();
                }
            }
            Mut::DupQuery(i, count) => {
                let n = p.decommitment_list.len();
                if n > 0 {
                    let d = p.decommitment_list[idx(*i, n)].clone();
                    p.decommitment_list.insert(idx(*i, n), d);
                }
                if *count {
                    p.number_of_queries = p.decommitment_list.len();
                }
            }
            Mut::DropAll(layers) => {
                p.decommitment_list.clear();
                if *layers {
                    p.layers_root.clear();
                }
            }
            Mut::Root(l, d) => {
                let n = p.layers_root.len();
                if n > 0 {
                    p.layers_root[idx(*l, n)] += d.f::<F>();
                }
            }
            Mut::RootEverywhere(l, d) => {
                let n = p.layers_root.len();
                if n > 0 {
                    let l = idx(*l, n);
                    p.layers_root[l] += d.f::<F>();
                    let root = p.layers_root[l];
                    for q in &mut p.decommitment_list {
                        for v in [&mut q.auth_paths, &mut q.sym_auth_paths] {
                            if let Some(m) = v.get_mut(l) {
                                *m = rebuild(m, m.path_and_root().0.to_vec(), root);
                            }
                        }
                    }
                }
            }
            Mut::SwapRoots(a, b) => swap_at(&mut p.layers_root, *a, *b),
            Mut::DropRoot(l) => drop_at(&mut p.layers_root, *l),
            Mut::DupRoot(l) => {
                let n = p.layers_root.len();
                if n > 0 {
                    let r = p.layers_root[idx(*l, n)];
                    p.layers_root.insert(idx(*l, n), r);
                }
            }
            Mut::PushRoot(x) => p.layers_root.push(x.f()),
            Mut::Const(d) => p.const_val += d.f::<F>(),
            Mut::Domain(k) => p.domain_size = 1usize.checked_shl(*k as u32).unwrap_or(0),
            Mut::DomainAny(n) => p.domain_size = *n as usize,
            Mut::Queries(n) => p.number_of_queries = *n as usize,
            Mut::DropEntry(q, list, l) => {
                let (q, _) = at(p, &(*q, 0, false))?;
                let d = &mut p.decommitment_list[q];
                match list % 4 {
                    0 => drop_at(&mut d.evaluations, *l),
                    1 => drop_at(&mut d.auth_paths, *l),
                    2 => drop_at(&mut d.sym_evaluations, *l),
                    _ => drop_at(&mut d.sym_auth_paths, *l),
                }
            }
            Mut::PushEntry(q, list) => {
                let (q, _) = at(p, &(*q, 0, false))?;
                let d = &mut p.decommitment_list[q];
                match list % 5 {
                    0 => push_copy(&mut d.evaluations),
                    1 => push_copy(&mut d.auth_paths),
                    2 => push_copy(&mut d.sym_evaluations),
                    3 => push_copy(&mut d.sym_auth_paths),
                    _ => {
                        push_copy(&mut d.evaluations);
                        push_copy(&mut d.auth_paths);
                        push_copy(&mut d.sym_evaluations);
                        push_copy(&mut d.sym_auth_paths);
                    }
                }
            }
            Mut::SwapEntries(q, list, a, b) => {
                let (q, _) = at(p, &(*q, 0, false))?;
                let d = &mut p.decommitment_list[q];
                match list % 5 {
                    0 => swap_at(&mut d.evaluations, *a, *b),
                    1 => swap_at(&mut d.auth_paths, *a, *b),
                    2 => swap_at(&mut d.sym_evaluations, *a, *b),
                    3 => swap_at(&mut d.sym_auth_paths, *a, *b),
                    _ => {
                        swap_at(&mut d.evaluations, *a, *b);
                        swap_at(&mut d.auth_paths, *a, *b);
                        swap_at(&mut d.sym_evaluations, *a, *b);
                        swap_at(&mut d.sym_auth_paths, *a, *b);
                    }
                }
            }
            Mut::DropLayerOf(q, l) => {
                let (q, l) = at(p, &(*q, *l, false))?;
                let d = &mut p.decommitment_list[q];
                // the evaluations of all layers after l
                d.evaluations.truncate(l);
                d.auth_paths.truncate(l);
                d.sym_evaluations.truncate(l);
                d.sym_auth_paths.truncate(l);
            }
            Mut::CutFirst => {
                drop_at(&mut p.layers_root, 0);
                p.domain_size /= 2;
                p.coset.square_in_place();
                for d in &mut p.decommitment_list {
                    drop_at(&mut d.evaluations, 0);
                    drop_at(&mut d.auth_paths, 0);
                    drop_at(&mut d.sym_evaluations, 0);
                    drop_at(&mut d.sym_auth_paths, 0);
                }
            }
            Mut::CutLast(domain) => {
                p.layers_root.pop();
                if *domain {
                    p.domain_size /= 2;
                }
                if let Some(e) = p.decommitment_list.first().and_then(|d| d.evaluations.last()) {
                    p.const_val = *e;
                }
                for d in &mut p.decommitment_list {
                    d.evaluations.pop();
                    d.auth_paths.pop();
                    d.sym_evaluations.pop();
                    d.sym_auth_paths.pop();
                }
            }
            Mut::Node(a, i, d) => {
                let m = path(p, a)?;
                let (mut n, root) = (m.path_and_root().0.to_vec(), m.path_and_root().1);
                if !n.is_empty() {
                    let i = idx(*i, n.len());
                    n[i] += d.f::<F>();
                    *m = rebuild(m, n, root);
                }
            }
            Mut::SwapNodes(a) => {
                let m = path(p, a)?;
                let (mut n, root) = (m.path_and_root().0.to_vec(), m.path_and_root().1);
                n.reverse();
                *m = rebuild(m, n, root);
            }
            Mut::DropNode(a, i) => {
                let m = path(p, a)?;
                let (mut n, root) = (m.path_and_root().0.to_vec(), m.path_and_root().1);
                drop_at(&mut n, *i);
                *m = rebuild(m, n, root);
            }
            Mut::PushNode(a, x) => {
                let m = path(p, a)?;
                let (mut n, root) = (m.path_and_root().0.to_vec(), m.path_and_root().1);
                n.push(x.f());
                *m = rebuild(m, n, root);
            }
            Mut::PathRoot(a, d) => {
                let m = path(p, a)?;
                let (n, root) = (m.path_and_root().0.to_vec(), m.path_and_root().1);
                *m = rebuild(m, n, root + d.f::<F>());
            }
            Mut::GraftPath(a, b) => {
                let m = path(p, a)?.clone();
                *path(p, b)? = m;
            }
            Mut::GraftBoth(a, b) => {
                let m = path(p, a)?.clone();
                let (q, l) = at(p, b)?;
                let d = &mut p.decommitment_list[q];
                if b.2 {
                    d.sym_evaluations[l] = m.leaf_val;
                } else {
                    d.evaluations[l] = m.leaf_val;
                }
                *path(p, b)? = m;
            }
            Mut::OneSide(q, l, s) => {
                let (q, l) = at(p, &(*q, *l, false))?;
                let d = &mut p.decommitment_list[q];
                if *s {
                    d.evaluations[l] = d.sym_evaluations[l];
                    d.auth_paths[l] = d.sym_auth_paths[l].clone();
                } else {
                    d.sym_evaluations[l] = d.evaluations[l];
                    d.sym_auth_paths[l] = d.auth_paths[l].clone();
                }
            }
            Mut::GraftLayer(q, a, b) => {
                let (_, a) = at(p, &(*q, *a, false))?;
                let (q, b) = at(p, &(*q, *b, false))?;
                let d = &mut p.decommitment_list[q];
                d.evaluations[b] = d.evaluations[a];
                d.sym_evaluations[b] = d.sym_evaluations[a];
                d.auth_paths[b] = d.auth_paths[a].clone();
                d.sym_auth_paths[b] = d.sym_auth_paths[a].clone();
            }
            Mut::Coset(x) => p.coset *= x.f::<F>(),
            Mut::Refold(q, l, sym, e) => {
                let (q, l) = at(p, &(*q, *l, false))?;
                let (rs, pos) = challenges::<T, F>(p);
                let (n, k, mut coset) = (p.domain_size, p.layers_root.len(), p.coset);
                if !n.is_power_of_two() || k != n.trailing_zeros() as usize || k > F::TWO_ADICITY as usize || n > 1 << 20 || coset.is_zero() {
                    return None;
                }
                let d = &mut p.decommitment_list[q];
                if [d.evaluations.len(), d.sym_evaluations.len(), d.auth_paths.len(), d.sym_auth_paths.len()] != [k; 4] || q >= pos.len() {
                    return None;
                }
                *(if *sym { &mut d.sym_evaluations[l] } else { &mut d.evaluations[l] }) += e.f::<F>();
                for i in 0..k {
                    let m = n >> i;
                    if i >= l {
                        let w = root_of_unity::<F>(m).pow([(pos[q] % m) as u64]) * coset;
                        let (a, b) = (d.evaluations[i], d.sym_evaluations[i]);
                        let half = F::from(2u64).inverse().unwrap();
                        let v = (a + b) * half + rs[i] * (a - b) * half * w.inverse().unwrap();
                        d.auth_paths[i].leaf_val = a;
                        d.sym_auth_paths[i].leaf_val = b;
                        if i + 1 < k {
                            d.evaluations[i + 1] = v;
                        }
                    }
                    coset.square_in_place();
                }
            }
            Mut::Compensate(q, l, e) => {
                // keep the folding of layer l, with both of its values wrong
                let (q, l) = at(p, &(*q, *l, false))?;
                let (rs, pos) = challenges::<T, F>(p);
                let (n, k) = (p.domain_size, p.layers_root.len());
                if !n.is_power_of_two() || k != n.trailing_zeros() as usize || k > F::TWO_ADICITY as usize || n > 1 << 20 || q >= pos.len() || l >= k || p.coset.is_zero() {
                    return None;
                }
                let m = n >> l;
                let w = root_of_unity::<F>(m).pow([(pos[q] % m) as u64]) * p.coset.pow([1u64 << l]);
                // (r + w) e = (r - w) f
                if rs[l] == w {
                    return None;
                }
                let (e, f) = (e.f::<F>(), e.f::<F>() * (rs[l] + w) / (rs[l] - w));
                let d = &mut p.decommitment_list[q];
                d.evaluations[l] += e;
                d.auth_paths[l].leaf_val += e;
                d.sym_evaluations[l] += f;
                d.sym_auth_paths[l].leaf_val += f;
                if l > 0 {
                    return None;
                }
            }
        }
        Some(())
    }
    /// Folding challenges and positions (not reduced) for the proof's roots and constant.
    pub fn challenges<T: Digest + Default, F: PrimeField>(p: &Proof<F>) -> (Vec<F>, Vec<usize>) {
        let mut t = Transcript::<T, F>::new(F::ZERO);
        let mut rs = Vec::new();
        for root in &p.layers_root {
            t.digest(*root);
            rs.push(t.generate_a_challenge());
        }
        t.digest(p.const_val);
        (rs, t.generate_challenge_list_usize(p.decommitment_list.len()))
    }

    pub fn mutation() -> BoxedStrategy<Mut> {
        let at = || (any::<u16>(), any::<u16>(), any::<bool>());
        let u = any::<u16>;
        prop_oneof![
            4 => (at(), fe_nz(), any::<bool>(), any::<bool>()).prop_map(|(a, d, v, l)| Mut::Value(a, d, v || !l, l)),
            5 => (at(), any::<u8>(), prop_oneof![3 => Just(Fe::Z), 1 => Just(Fe::One), 1 => fe()]).prop_map(|(a, b, c)| Mut::Put(a, b, c)),
            1 => (at(), any::<u8>()).prop_map(|(a, b)| Mut::Negate(a, b)),
            2 => (at(), any::<u8>(), at()).prop_map(|(a, b, c)| Mut::Take(a, b, c)),
            2 => (at(), prop_oneof![1u32..6, any::<u32>(), (0u32..20).prop_map(|k| 1 << k)]).prop_map(|(a, d)| Mut::Index(a, d)),
            1 => (u(), u()).prop_map(|(a, b)| Mut::Swap(a, b)),
            1 => u().prop_map(Mut::SwapAll),
            1 => (u(), u()).prop_map(|(a, b)| Mut::SwapValues(a, b)),
            2 => (u(), u()).prop_map(|(a, b)| Mut::CopyQuery(a, b)),
            1 => (u(), u()).prop_map(|(a, b)| Mut::SwapQueries(a, b)),
            1 => Just(Mut::RotateQueries),
            2 => (u(), any::<bool>()).prop_map(|(a, b)| Mut::DropQuery(a, b)),
            2 => (u(), any::<bool>()).prop_map(|(a, b)| Mut::DupQuery(a, b)),
            1 => any::<bool>().prop_map(Mut::DropAll),
            2 => (u(), fe_nz()).prop_map(|(a, b)| Mut::Root(a, b)),
            2 => (u(), fe_nz()).prop_map(|(a, b)| Mut::RootEverywhere(a, b)),
            1 => (u(), u()).prop_map(|(a, b)| Mut::SwapRoots(a, b)),
            1 => u().prop_map(Mut::DropRoot),
            1 => u().prop_map(Mut::DupRoot),
            1 => fe().prop_map(Mut::PushRoot),
            3 => fe_nz().prop_map(Mut::Const),
            2 => (0u8..12).prop_map(Mut::Domain),
            1 => any::<u8>().prop_map(Mut::Domain),
            1 => prop_oneof![0u32..70, any::<u32>()].prop_map(Mut::DomainAny),
            2 => (0u8..30).prop_map(Mut::Queries),
            2 => (u(), any::<u8>(), u()).prop_map(|(a, b, c)| Mut::DropEntry(a, b, c)),
            2 => (u(), any::<u8>()).prop_map(|(a, b)| Mut::PushEntry(a, b)),
            2 => (u(), any::<u8>(), u(), u()).prop_map(|(a, b, c, d)| Mut::SwapEntries(a, b, c, d)),
            2 => (u(), u()).prop_map(|(a, b)| Mut::DropLayerOf(a, b)),
            1 => Just(Mut::CutFirst),
            1 => any::<bool>().prop_map(Mut::CutLast),
            4 => (at(), u(), fe_nz()).prop_map(|(a, b, c)| Mut::Node(a, b, c)),
            1 => at().prop_map(Mut::SwapNodes),
            2 => (at(), u()).prop_map(|(a, b)| Mut::DropNode(a, b)),
            2 => (at(), fe()).prop_map(|(a, b)| Mut::PushNode(a, b)),
            2 => (at(), fe_nz()).prop_map(|(a, b)| Mut::PathRoot(a, b)),
            2 => (at(), at()).prop_map(|(a, b)| Mut::GraftPath(a, b)),
            2 => (at(), at()).prop_map(|(a, b)| Mut::GraftBoth(a, b)),
            1 => (u(), u(), any::<bool>()).prop_map(|(a, b, c)| Mut::OneSide(a, b, c)),
            1 => (u(), u(), u()).prop_map(|(a, b, c)| Mut::GraftLayer(a, b, c)),
            1 => fe().prop_map(Mut::Coset),
            3 => (u(), u(), any::<bool>(), fe_nz()).prop_map(|(a, b, c, d)| Mut::Refold(a, b, c, d)),
            2 => (u(), u(), fe_nz()).prop_map(|(a, b, c)| Mut::Compensate(a, b, c)),
        ]
        .boxed()
    }

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Tamper {
        pub set: Setting,
        pub muts: Vec<Mut>,
    }
    pub fn tamper_run(c: &Tamper, cx: &mut Cx) -> R {
        with!(c.set, tamper_case(c, cx))
    }
    fn tamper_case<T: Digest + Default, F: PrimeField>(c: &Tamper, cx: &mut Cx) -> R {
        let mut p = c.set.prove::<T, F>();
        let before = format!("{p:?}");
        for m in &c.muts {
            apply::<T, F>(&mut p, m);
            let name = format!("{m:?}");
            cx.label(name.split('(').next().unwrap());
        }
        verdict::<T, F>(&p, before != format!("{p:?}"), cx)
    }
    /// What is inconsistent must be rejected.
    pub fn verdict<T: Digest + Default, F: PrimeField>(p: &Proof<F>, changed: bool, cx: &mut Cx) -> R {
        let want = consistent::<T, F>(p);
        let got = judge::<T, F>(p);
        cx.nt(changed && want.is_err());
        cx.label(if want.is_ok() { "consistent" } else { "inconsistent" });
        match (want, got) {
            // robustness is V01's matter
            (_, Err(_)) => Ok(()),
            (Err(why), Ok(Ok(()))) => Err(format!("an inconsistent proof is accepted ({why})").into()),
            (Ok(()), Ok(Err(m))) if !changed => Err(format!("an honest proof is rejected: {m}").into()),
            _ => Ok(()),
        }
    }

    /// A prover that commits to layers of its choice.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Forge {
        pub log: u8,
        pub seed: u64,
        pub queries: u8,
        pub field: u8,
        pub digest: u8,
        pub cheat: Cheat,
        pub muts: Vec<Mut>,
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Cheat {
        None,
        /// layer k is not the folding of the one before: wrong everywhere
        Layer(u16, Fe),
        /// ... at some positions (those with a bit of the mask)
        Positions(u16, Fe, u64),
        /// values revealed for the folding, with the committed layer's paths
        Reveal(u16, Fe),
        /// the constant
        Const(Fe),
        /// folded by another challenge in layer k
        Challenge(u16, Fe),
        /// the layer is folded in the wrong order of positions
        Order(u16),
        /// the layer's tree is that of another layer's values, repeated
        Tree(u16),
        /// all layers after k are zero and the constant is zero
        Zero(u16),
        /// answers for other positions than those of the transcript
        Elsewhere(u32),
        /// answers only even positions: the first query's
        Repeat,
        /// a different coset for layer k
        Shift(u16),
    }
    pub fn forge_strategy() -> BoxedStrategy<Forge> {
        let u = any::<u16>;
        let cheat = prop_oneof![
            1 => Just(Cheat::None),
            3 => (u(), fe_nz()).prop_map(|(a, b)| Cheat::Layer(a, b)),
            3 => (u(), fe_nz(), any::<u64>()).prop_map(|(a, b, c)| Cheat::Positions(a, b, c)),
            3 => (u(), fe_nz()).prop_map(|(a, b)| Cheat::Reveal(a, b)),
            2 => fe_nz().prop_map(Cheat::Const),
            2 => (u(), fe()).prop_map(|(a, b)| Cheat::Challenge(a, b)),
            1 => u().prop_map(Cheat::Order),
            1 => u().prop_map(Cheat::Tree),
            1 => u().prop_map(Cheat::Zero),
            2 => prop_oneof![1u32..4, any::<u32>()].prop_map(Cheat::Elsewhere),
            1 => Just(Cheat::Repeat),
            1 => u().prop_map(Cheat::Shift),
        ];
        (1u8..=6, any::<u64>(), 1u8..=6, prop_oneof![3 => Just(0u8), 1 => Just(1u8)], digest(), cheat, prop::collection::vec(mutation(), 0..2))
            .prop_map(|(log, seed, queries, field, digest, cheat, muts)| Forge { log, seed, queries, field, digest, cheat, muts })
            .boxed()
    }
    pub fn forge_run(c: &Forge, cx: &mut Cx) -> R {
        with!(c, forge_case(c, cx))
    }
    fn forge_case<T: Digest + Default, F: PrimeField>(c: &Forge, cx: &mut Cx) -> R {
        let k = c.log.clamp(1, 8) as usize;
        let n = 1usize << k;
        let coset = F::GENERATOR;
        let mut layer: Vec<F> = PolyR::Rand(n as u16, c.seed).coeffs();
        let mut trees: Vec<MerkleTree<F>> = Vec::new();
        let mut shown: Vec<Vec<F>> = Vec::new();
        let mut t = Transcript::<T, F>::new(F::ZERO);
        let mut x = coset;
        for l in 0..k {
            let mut committed = layer.clone();
            match &c.cheat {
                Cheat::Layer(j, e) if idx(*j, k) == l && l > 0 => committed.iter_mut().for_each(|v| *v += e.f::<F>()),
                Cheat::Positions(j, e, mask) if idx(*j, k) == l && l > 0 => committed.iter_mut().enumerate().for_each(|(i, v)| {
                    if mask >> (i % 64) & 1 == 1 {
                        *v += e.f::<F>()
                    }
                }),
                Cheat::Order(j) if idx(*j, k) == l => committed.reverse(),
                Cheat::Zero(j) if idx(*j, k) == l => committed.iter_mut().for_each(|v| *v = F::ZERO),
                Cheat::Tree(j) if idx(*j, k) == l && l > 0 => {
                    let m = committed.len();
                    committed = (0..m).map(|i| shown[0][i]).collect();
                }
                _ => (),
            }
            let tree = MerkleTree::new(committed.clone());
            t.digest(tree.root());
            let mut r = t.generate_a_challenge();
            if let Cheat::Challenge(j, e) = &c.cheat {
                if idx(*j, k) == l {
                    r = e.f();
                }
            }
            if let Cheat::Shift(j) = &c.cheat {
                if idx(*j, k) == l {
                    x *= F::GENERATOR;
                }
            }
            shown.push(match &c.cheat {
                Cheat::Reveal(j, e) if idx(*j, k) == l => {
                    layer = layer.iter().map(|v| *v + e.f::<F>()).collect();
                    layer.clone()
                }
                _ => committed.clone(),
            });
            layer = fold(&shown[l], x, r);
            trees.push(tree);
            x.square_in_place();
        }
        let mut constant = layer[0];
        if let Cheat::Const(e) = &c.cheat {
            constant += e.f::<F>();
        }
        t.digest(constant);
        let mut positions = t.generate_challenge_list_usize(c.queries as usize);
        match &c.cheat {
            Cheat::Elsewhere(d) => positions.iter_mut().for_each(|p| *p = p.wrapping_add(*d as usize)),
            Cheat::Repeat => positions = vec![positions[0]; positions.len()],
            _ => (),
        }
        let list = positions
            .iter()
            .map(|pos| {
                let mut d = Decommitment { evaluations: vec![], auth_paths: vec![], sym_evaluations: vec![], sym_auth_paths: vec![] };
                for l in 0..k {
                    let m = n >> l;
                    let (i, j) = (pos % m, (pos + m / 2) % m);
                    let path = |at: usize| {
                        let mut q = trees[l].generate_proof(at);
                        q.leaf_val = shown[l][at];
                        q
                    };
                    d.evaluations.push(shown[l][i]);
                    d.sym_evaluations.push(shown[l][j]);
                    d.auth_paths.push(path(i));
                    d.sym_auth_paths.push(path(j));
                }
                d
            })
            .collect();
        let mut p = Proof {
            domain_size: n,
            coset,
            number_of_queries: c.queries as usize,
            layers_root: trees.iter().map(|t| t.root()).collect(),
            const_val: constant,
            decommitment_list: list,
        };
        let name = format!("{:?}", c.cheat);
        cx.label(name.split('(').next().unwrap());
        for m in &c.muts {
            apply::<T, F>(&mut p, m);
        }
        verdict::<T, F>(&p, true, cx)
    }

    /// A prover that claims a constant of its choice and reveals, in each layer, values off by amounts of a given
    /// form, solved so that every folding holds. Passes as soon as one of the other checks is weak.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Solve {
        pub log: u8,
        pub poly: PolyR,
        pub queries: u8,
        pub field: u8,
        pub digest: u8,
        /// added to the constant
        pub claim: Fe,
        /// how the two values of a layer may be off, from the last layer on; the last entry holds for all layers before
        pub off: Vec<Off>,
        /// how a layer's values are taken up by the next folding
        pub link: Link,
        /// whether the path's leaf is changed with the value: first and mirror side
        pub leaf: (bool, bool),
        /// the queries that are treated so (others stay honest)
        pub mask: u8,
    }
    #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
    pub enum Off {
        None,
        First,
        Mirror,
        Opposite,
        Same,
        /// first by t, mirror by the given multiple of t
        Multiple(i8),
        /// both multiplied by one factor
        Scale,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
    pub enum Link {
        First,
        Mirror,
        Negated,
        Double,
        Half,
        Sum,
    }
    pub fn solve_strategy() -> BoxedStrategy<Solve> {
        let off = prop_oneof![
            1 => Just(Off::None),
            2 => Just(Off::First),
            2 => Just(Off::Mirror),
            3 => Just(Off::Opposite),
            2 => Just(Off::Same),
            1 => any::<i8>().prop_map(Off::Multiple),
            1 => Just(Off::Scale),
        ];
        let link = prop_oneof![6 => Just(Link::First), 1 => Just(Link::Mirror), 1 => Just(Link::Negated), 1 => Just(Link::Double), 1 => Just(Link::Half), 1 => Just(Link::Sum)];
        let polys = prop_oneof![4 => any::<u64>().prop_map(|s| PolyR::Rand(64, s)), 1 => super::poly(20)];
        (
            (1u8..=6, polys, 1u8..=6, prop_oneof![3 => Just(0u8), 1 => Just(1u8)], digest()),
            prop_oneof![4 => fe_nz(), 1 => Just(Fe::Z)],
            prop_oneof![2 => off.clone().prop_map(|o| vec![o]), 1 => prop::collection::vec(off, 1..5)],
            link,
            (any::<bool>(), any::<bool>()),
            prop_oneof![3 => Just(255u8), 1 => any::<u8>()],
        )
            .prop_map(|((log, poly, queries, field, digest), claim, off, link, leaf, mask)| Solve { log, poly, queries, field, digest, claim, off, link, leaf, mask })
            .boxed()
    }
    pub fn solve_run(c: &Solve, cx: &mut Cx) -> R {
        with!(c, solve_case(c, cx))
    }
    fn solve_case<T: Digest + Default, F: PrimeField>(c: &Solve, cx: &mut Cx) -> R {
        let k = c.log.clamp(1, 8) as usize;
        let n = 1usize << k;
        let coset = F::GENERATOR;
        let mut coeffs: Vec<F> = c.poly.coeffs();
        coeffs.truncate(n);
        let mut layer = evaluations(&coeffs, coset, n);
        let (mut trees, mut layers, mut rs) = (Vec::new(), Vec::new(), Vec::new());
        let mut t = Transcript::<T, F>::new(F::ZERO);
        let mut x = coset;
        for _ in 0..k {
            let tree = MerkleTree::new(layer.clone());
            t.digest(tree.root());
            let r: F = t.generate_a_challenge();
            let next = fold(&layer, x, r);
            layers.push(std::mem::replace(&mut layer, next));
            trees.push(tree);
            rs.push(r);
            x.square_in_place();
        }
        let constant = layer[0] + c.claim.f::<F>();
        t.digest(constant);
        let positions = t.generate_challenge_list_usize(c.queries as usize);
        let half = F::from(2u64).inverse().unwrap();
        let mut changed = 0;
        let mut list = Vec::new();
        for (q, pos) in positions.iter().enumerate() {
            let mut d = Decommitment { evaluations: vec![], auth_paths: vec![], sym_evaluations: vec![], sym_auth_paths: vec![] };
            for l in 0..k {
                let m = n >> l;
                let (i, j) = (pos % m, (pos + m / 2) % m);
                d.evaluations.push(layers[l][i]);
                d.sym_evaluations.push(layers[l][j]);
                d.auth_paths.push(trees[l].generate_proof(i));
                d.sym_auth_paths.push(trees[l].generate_proof(j));
            }
            if c.mask >> (q % 8) & 1 == 1 {
                let mut target = constant;
                for l in (0..k).rev() {
                    let m = n >> l;
                    let w = root_of_unity::<F>(m).pow([(pos % m) as u64]) * coset.pow([1u64 << l]);
                    // folding = a e + b s
                    let (e, s) = (d.evaluations[l], d.sym_evaluations[l]);
                    let v = rs[l] * w.inverse().unwrap();
                    let (a, b) = (half * (F::ONE + v), half * (F::ONE - v));
                    let miss = target - (a * e + b * s);
                    if miss.is_zero() {
                        break;
                    }
                    let off = c.off.get(k - 1 - l).or(c.off.last()).copied().unwrap_or(Off::None);
                    let along = |p: F, q: F| {
                        let t = miss * (a * p + b * q).inverse()?;
                        Some((e + p * t, s + q * t))
                    };
                    let got = match off {
                        Off::None => None,
                        Off::First => along(F::ONE, F::ZERO),
                        Off::Mirror => along(F::ZERO, F::ONE),
                        Off::Opposite => along(F::ONE, -F::ONE),
                        Off::Same => along(F::ONE, F::ONE),
                        Off::Multiple(z) => along(F::ONE, if z < 0 { -F::from(z.unsigned_abs()) } else { F::from(z as u8) }),
                        Off::Scale => along(e, s),
                    };
                    let Some((e, s)) = got else { break };
                    changed += 1;
                    d.evaluations[l] = e;
                    d.sym_evaluations[l] = s;
                    if c.leaf.0 {
                        d.auth_paths[l].leaf_val = e;
                    }
                    if c.leaf.1 {
                        d.sym_auth_paths[l].leaf_val = s;
                    }
                    target = match c.link {
                        Link::First => e,
                        Link::Mirror => s,
                        Link::Negated => -e,
                        Link::Double => e + e,
                        Link::Half => e * half,
                        Link::Sum => e + s,
                    };
                }
            }
            list.push(d);
        }
        let p = Proof {
            domain_size: n,
            coset,
            number_of_queries: c.queries as usize,
            layers_root: trees.iter().map(|t| t.root()).collect(),
            const_val: constant,
            decommitment_list: list,
        };
        cx.label(format!("link {:?}", c.link));
        cx.label_if(c.off.len() == 1 && changed > 0, format!("{:?} in {}", c.off[0], if c.leaf == (false, false) { "values only" } else { "leaves too" }).split(['(']).next().unwrap());
        verdict::<T, F>(&p, changed > 0 || !c.claim.f::<F>().is_zero(), cx)
    }
}

/// Needs no hooks: changes to the public parts alone.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plain {
    set: Setting,
    at: (u16, u16, bool),
    d: Fe,
    what: u8,
}
fn plain_run(c: &Plain, cx: &mut Cx) -> R {
    with!(c.set, plain_case(c, cx))
}
fn plain_case<T: Digest + Default, F: PrimeField>(c: &Plain, cx: &mut Cx) -> R {
    let mut p = c.set.prove::<T, F>();
    if p.layers_root.is_empty() || p.decommitment_list.is_empty() {
        return cx.skip();
    }
    let d = c.d.f::<F>();
    if d.is_zero() {
        return cx.skip();
    }
    let k = p.layers_root.len();
    let (q, l) = (idx(c.at.0, p.decommitment_list.len()), idx(c.at.1, k));
    let dec = &mut p.decommitment_list[q];
    let (vals, paths) = if c.at.2 { (&mut dec.sym_evaluations, &mut dec.sym_auth_paths) } else { (&mut dec.evaluations, &mut dec.auth_paths) };
    match c.what % 8 {
        0 => vals[l] += d,
        1 => paths[l].leaf_val += d,
        2 => {
            vals[l] += d;
            paths[l].leaf_val += d;
        }
        3 => paths[l].index ^= 1,
        4 => p.const_val += d,
        5 => p.layers_root[l] += d,
        6 => {
            p.decommitment_list.pop();
        }
        _ => p.number_of_queries += 1,
    }
    cx.label(format!("change {}", c.what % 8));
    cx.nt(true);
    match judge::<T, F>(&p) {
        Ok(Ok(())) => Err("a changed proof is accepted".into()),
        _ => Ok(()),
    }
}

fn f03() -> Check {
    #[allow(unused_mut)]
    let mut subs: Vec<Box<dyn DynSub>> = vec![Box::new(Sub {
        name: "plain",
        rule: "an honest proof with one public part changed must be rejected. Every case is non-trivial.",
        quick: 10000,
        thorough: 20000,
        examples: vec![],
        strat: || {
            (setting(20, 6), (any::<u16>(), any::<u16>(), any::<bool>()), fe_nz(), any::<u8>())
                .prop_map(|(set, at, d, what)| Plain { set, at, d, what })
                .boxed()
        },
        run: plain_run,
    })];
    #[cfg(feature = "hooks")]
    {
        use f03x::*;
        let base = |d| set(PolyR::Rand(8, 3), 2, 4, 0, d);
        let a = (0, 0, false);
        let mut examples = Vec::new();
        for d in [0, 3] {
            for m in [
                vec![Mut::Put(a, 0, Fe::Z)],
                vec![Mut::Put(a, 1, Fe::Z)],
                vec![Mut::Put(a, 2, Fe::Z)],
                vec![Mut::Put(a, 3, Fe::Z)],
                vec![Mut::Put(a, 4, Fe::Z)],
                vec![Mut::Put(a, 5, Fe::Z)],
                vec![Mut::Put(a, 6, Fe::Z)],
                vec![Mut::Put(a, 10, Fe::Z), Mut::Put((0, 0, true), 10, Fe::Z), Mut::Put(a, 6, Fe::Z)],
                vec![Mut::DropAll(false)],
                vec![Mut::DropAll(true)],
                vec![Mut::DropAll(true), Mut::Domain(0)],
                vec![Mut::Queries(0)],
                vec![Mut::DropQuery(0, false)],
                vec![Mut::DropQuery(0, true)],
                vec![Mut::DropLayerOf(0, 0)],
                vec![Mut::DropLayerOf(0, 40000)],
                vec![Mut::CutFirst],
                vec![Mut::CutLast(true)],
                vec![Mut::CutLast(false)],
                vec![Mut::Const(Fe::One)],
                vec![Mut::Refold(0, 0, false, Fe::One)],
                vec![Mut::Refold(0, 0, true, Fe::One)],
                vec![Mut::Compensate(0, 0, Fe::One)],
                vec![Mut::RootEverywhere(0, Fe::One)],
                vec![Mut::GraftPath(a, (30000, 0, false))],
                vec![Mut::Index(a, 16)],
                vec![Mut::Index(a, 1 << 31)],
                vec![Mut::DropNode(a, 65535)],
                vec![Mut::PushRoot(Fe::One)],
                vec![Mut::Domain(63), Mut::Queries(0)],
                vec![Mut::CopyQuery(0, 65535)],
                vec![Mut::SwapAll(0)],
            ] {
                examples.push(Tamper { set: base(d), muts: m });
            }
        }
        // many layers, many queries
        let deep = || set(PolyR::Rand(600, 3), 2, 3, 0, 0);
        let many = |q| set(PolyR::Rand(8, 3), 2, q, 0, 0);
        for side in [false, true] {
            for l in 0..11u16 {
                let at = (20000, l * 5958 + 100, side);
                examples.push(Tamper { set: deep(), muts: vec![Mut::Value(at, Fe::One, true, true)] });
                examples.push(Tamper { set: deep(), muts: vec![Mut::Value(at, Fe::One, true, false)] });
                examples.push(Tamper { set: deep(), muts: vec![Mut::Refold(20000, at.1, side, Fe::One)] });
                examples.push(Tamper { set: deep(), muts: vec![Mut::Node(at, 65535, Fe::One)] });
                examples.push(Tamper { set: deep(), muts: vec![Mut::Node(at, 0, Fe::One)] });
                examples.push(Tamper { set: deep(), muts: vec![Mut::Index(at, 1 << (10 - l))] });
                examples.push(Tamper { set: deep(), muts: vec![Mut::Root(at.1, Fe::One)] });
                examples.push(Tamper { set: deep(), muts: vec![Mut::DropLayerOf(at.0, at.1)] });
            }
            for q in [33u16, 65, 100, 257, 300] {
                for at in [q / 2, q - 1, q - 2, q * 3 / 4] {
                    let at = ((at as u32 * 65536 / q as u32) as u16 + 60, 20000, side);
                    examples.push(Tamper { set: many(q), muts: vec![Mut::Value(at, Fe::One, true, true)] });
                    examples.push(Tamper { set: many(q), muts: vec![Mut::Refold(at.0, 0, side, Fe::One)] });
                    examples.push(Tamper { set: many(q), muts: vec![Mut::Index(at, 1)] });
                    examples.push(Tamper { set: many(q), muts: vec![Mut::CopyQuery(0, at.0)] });
                }
                examples.push(Tamper { set: many(q), muts: vec![Mut::DropQuery(65535, false)] });
                examples.push(Tamper { set: many(q), muts: vec![Mut::RotateQueries] });
            }
        }
        subs.push(Box::new(Sub {
            name: "tamper",
            rule: "an honest proof with one to three changes of values, leaves, positions, paths, roots, order and number of any of its parts, some of which keep the foldings consistent; whatever the independent verifier finds inconsistent must be rejected. Non-trivial: changed and inconsistent.",
            quick: 120000,
            thorough: 150000,
            examples,
            strat: || (prop_oneof![40 => setting(20, 6), 1 => setting(150, 70)], prop::collection::vec(mutation(), 1..4)).prop_map(|(set, muts)| Tamper { set, muts }).boxed(),
            run: tamper_run,
        }));
        subs.push(Box::new(Sub {
            name: "forge",
            rule: "a prover that commits to layers of its own choice and cheats in one way (layer, position, folding challenge, constant, revealed values, order, tree, positions answered), with all challenges derived afterwards; whatever the independent verifier finds inconsistent must be rejected. Non-trivial: inconsistent.",
            quick: 120000,
            thorough: 150000,
            examples: vec![],
            strat: forge_strategy,
            run: forge_run,
        }));
        let mut examples = Vec::new();
        for off in [Off::First, Off::Mirror, Off::Opposite, Off::Same, Off::Scale, Off::Multiple(2)] {
            for leaf in [(false, false), (true, false), (false, true), (true, true)] {
                examples.push(Solve { log: 3, poly: PolyR::Rand(64, 5), queries: 3, field: 0, digest: 0, claim: Fe::One, off: vec![off], link: Link::First, leaf, mask: 255 });
            }
        }
        subs.push(Box::new(Sub {
            name: "solve",
            rule: "a prover that claims a constant of its choice and reveals values off by amounts of a given form (one side, opposite, equal, multiples) in the last or in all layers, with or without the paths' leaves, solved so that every folding (possibly read in another way) holds; whatever the independent verifier finds inconsistent must be rejected. Non-trivial: inconsistent.",
            quick: 60000,
            thorough: 100000,
            examples,
            strat: solve_strategy,
            run: solve_run,
        }));
    }
    Check { id: "F03", assumptions: vec![FIELDS, "the transcript and Merkle paths, which F05 and F04 check"], subs }
}

// ---------------------------------------------------------------- F04

#[cfg(feature = "hooks")]
mod f04x {
    use super::*;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct TreeCase {
        pub leaves: PolyR,
        pub pad: u8,
        pub field: u8,
        pub digest: u8,
        pub edits: Vec<Edit>,
        pub other: (u16, Fe),
    }
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Edit {
        Leaf(u16, Fe),
        /// the position by a shift of a power of two, or any
        Index(u16, u32),
        Far(u16, u8),
        Node(u16, u16, Fe),
        SwapNodes(u16, u16, u16),
        DropNode(u16, u16),
        PushNode(u16, Fe, bool),
        Root(u16, Fe),
        /// the leaf, path or position of another position
        LeafOf(u16, u16),
        PathOf(u16, u16),
        IndexOf(u16, u16),
        /// an inner node as the leaf of a shorter path
        Inner(u16),
        /// only the root
        Bare(u16),
    }
    pub fn leaves() -> BoxedStrategy<PolyR> {
        prop_oneof![
            3 => prop::collection::vec(fe(), 0..20).prop_map(PolyR::Dense),
            2 => (0u16..70, any::<u64>()).prop_map(|(n, s)| PolyR::Rand(n, s)),
            1 => (prop::collection::vec(fe(), 0..10), 0u8..6).prop_map(|(a, b)| PolyR::Trail(a, b)),
            // many equal leaves
            1 => (1usize..20, fe()).prop_map(|(n, x)| PolyR::Dense(vec![x; n])),
        ]
        .boxed()
    }
    pub fn edit() -> BoxedStrategy<Edit> {
        let u = any::<u16>;
        prop_oneof![
            3 => (u(), fe_nz()).prop_map(|(a, b)| Edit::Leaf(a, b)),
            2 => (u(), prop_oneof![1u32..5, (0u32..8).prop_map(|k| 1 << k), any::<u32>()]).prop_map(|(a, b)| Edit::Index(a, b)),
            1 => (u(), any::<u8>()).prop_map(|(a, b)| Edit::Far(a, b)),
            4 => (u(), u(), fe_nz()).prop_map(|(a, b, c)| Edit::Node(a, b, c)),
            1 => (u(), u(), u()).prop_map(|(a, b, c)| Edit::SwapNodes(a, b, c)),
            2 => (u(), u()).prop_map(|(a, b)| Edit::DropNode(a, b)),
            2 => (u(), fe(), any::<bool>()).prop_map(|(a, b, c)| Edit::PushNode(a, b, c)),
            2 => (u(), fe_nz()).prop_map(|(a, b)| Edit::Root(a, b)),
            1 => (u(), u()).prop_map(|(a, b)| Edit::LeafOf(a, b)),
            2 => (u(), u()).prop_map(|(a, b)| Edit::PathOf(a, b)),
            2 => (u(), u()).prop_map(|(a, b)| Edit::IndexOf(a, b)),
            1 => u().prop_map(Edit::Inner),
            1 => u().prop_map(Edit::Bare),
        ]
        .boxed()
    }
    pub fn tree_strategy() -> BoxedStrategy<TreeCase> {
        (leaves(), 0u8..3, 0u8..2, prop::collection::vec(edit(), 1..6), (any::<u16>(), fe_nz()))
            .prop_map(|(leaves, pad, field, edits, other)| TreeCase { leaves, pad, field, digest: 0, edits, other })
            .boxed()
    }
    pub fn tree_run(c: &TreeCase, cx: &mut Cx) -> R {
        with!(c, tree_case(c, cx))
    }
    fn tree_case<T: Digest + Default, F: PrimeField>(c: &TreeCase, cx: &mut Cx) -> R {
        let given: Vec<F> = c.leaves.coeffs();
        let tree = MerkleTree::new(given.clone());
        let n = given.len().next_power_of_two();
        let mut padded = given.clone();
        padded.resize(n, F::ZERO);
        cx.label(format!("2^{} leaves", n.ilog2()));
        cx.label_if(n != given.len(), "padded");
        cx.nt(n > 1);
        ensure!(tree.leaves == padded, "the leaves are not the given ones, padded with zeros to a power of two");
        let root = tree.root();
        let depth = n.ilog2() as usize;
        let proofs: Vec<MerkleProof<F>> = (0..n).map(|i| tree.generate_proof(i)).collect();
        for (i, p) in proofs.iter().enumerate() {
            ensure!(p.index == i && p.leaf_val == padded[i], "the path of position {i} carries another position or leaf");
            let (nodes, r) = p.path_and_root();
            ensure!(r == root, "the path of position {i} carries another root");
            ensure!(nodes.len() == depth, "the path of position {i} has {} nodes in a tree of depth {depth}", nodes.len());
            ensure!(verify_merkle_proof(p), "the path of position {i} does not verify");
        }
        // the same leaves, already padded or given again
        ensure!(MerkleTree::new(padded.clone()).root() == root, "the padded leaves have another root");
        // other leaves
        let mut other = padded.clone();
        let at = idx(c.other.0, n);
        other[at] += c.other.1.f::<F>();
        let root2 = MerkleTree::new(other).root();
        ensure!(root2 == root || padded[at] != padded[at] + c.other.1.f::<F>(), "internal");
        ensure!(root2 != root || c.other.1.f::<F>().is_zero(), "leaves that differ at position {at} have the same root");
        if n > 1 {
            let mut swapped = padded.clone();
            let j = at ^ 1;
            swapped.swap(at, j);
            ensure!(swapped == padded || MerkleTree::new(swapped.clone()).root() != root, "exchanging the leaves {at} and {j} keeps the root");
            let half = n / 2;
            let mut swapped = padded.clone();
            swapped.rotate_left(half);
            ensure!(swapped == padded || MerkleTree::new(swapped.clone()).root() != root, "exchanging the halves keeps the root");
        }
        let mut longer = padded.clone();
        longer.push(F::ZERO);
        ensure!(MerkleTree::new(longer).root() != root, "a tree of twice the size has the same root");
        // false claims
        for e in &c.edits {
            let name = format!("{e:?}");
            let (index, leaf, nodes, r, source) = edited(e, &proofs, root);
            let genuine = nodes.len() == depth && index < n && padded[index] == leaf && r == root && nodes == proofs[index].path_and_root().0;
            let p = MerkleProof::from_parts(index, leaf, nodes, r);
            let got = catch(|| verify_merkle_proof(&p)).map_err(|m| format!("verifying panics on {name} of position {source}: {m}"))?;
            cx.label_if(!genuine, name.split('(').next().unwrap());
            ensure!(genuine || !got, "a false path verifies: {name} of position {source} in a tree of {n} leaves");
            ensure!(!genuine || got, "a genuine path does not verify");
        }
        Ok(())
    }
    fn edited<F: PrimeField>(e: &Edit, proofs: &[MerkleProof<F>], root: F) -> (usize, F, Vec<F>, F, usize) {
        let n = proofs.len();
        let pick = |x: u16| idx(x, n);
        let (Edit::Leaf(s, _)
        | Edit::Index(s, _)
        | Edit::Far(s, _)
        | Edit::Node(s, _, _)
        | Edit::SwapNodes(s, _, _)
        | Edit::DropNode(s, _)
        | Edit::PushNode(s, _, _)
        | Edit::Root(s, _)
        | Edit::LeafOf(s, _)
        | Edit::PathOf(s, _)
        | Edit::IndexOf(s, _)
        | Edit::Inner(s)
        | Edit::Bare(s)) = e;
        let s = pick(*s);
        let p = &proofs[s];
        let (mut index, mut leaf, mut nodes, mut r) = (p.index, p.leaf_val, p.path_and_root().0.to_vec(), root);
        match e {
            Edit::Leaf(_, d) => leaf += d.f::<F>(),
            Edit::Index(_, d) => index = index.wrapping_add(*d as usize),
            // far beyond the tree, with the same low bits
            Edit::Far(_, k) => index |= 1usize << (n.ilog2() + *k as u32 % (64 - n.ilog2())),
            Edit::Node(_, i, d) => {
                if !nodes.is_empty() {
                    let i = idx(*i, nodes.len());
                    nodes[i] += d.f::<F>();
                }
            }
            Edit::SwapNodes(_, i, j) => {
                if !nodes.is_empty() {
                    let (i, j) = (idx(*i, nodes.len()), idx(*j, nodes.len()));
                    nodes.swap(i, j);
                }
            }
            Edit::DropNode(_, i) => {
                if !nodes.is_empty() {
                    nodes.remove(idx(*i, nodes.len()));
                }
            }
            Edit::PushNode(_, x, front) => nodes.insert(if *front { 0 } else { nodes.len() }, x.f()),
            Edit::Root(_, d) => r += d.f::<F>(),
            Edit::LeafOf(_, o) => leaf = proofs[pick(*o)].leaf_val,
            Edit::PathOf(_, o) => nodes = proofs[pick(*o)].path_and_root().0.to_vec(),
            Edit::IndexOf(_, o) => index = pick(*o),
            Edit::Inner(_) => {
                if !nodes.is_empty() {
                    // the sibling of the node above the leaf is a node of the neighbouring path
                    let sib = &proofs[s ^ 1];
                    leaf = sib.path_and_root().0[0];
                    nodes.remove(0);
                    index /= 2;
                }
            }
            Edit::Bare(_) => {
                if !nodes.is_empty() {
                    nodes.clear();
                    leaf = root;
                    index = 0;
                }
            }
        }
        (index, leaf, nodes, r, s)
    }

    /// Many roots at once.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Roots {
        pub seed: u64,
        pub field: u8,
        pub digest: u8,
    }
    pub fn roots_run(c: &Roots, cx: &mut Cx) -> R {
        with!(c, roots_case(c, cx))
    }
    fn roots_case<T: Digest + Default, F: PrimeField>(c: &Roots, cx: &mut Cx) -> R {
        cx.nt(true);
        let mut seen = std::collections::HashMap::new();
        let base: Vec<F> = PolyR::Rand(8, c.seed).coeffs();
        let mut lists: Vec<Vec<F>> = vec![vec![], vec![F::ONE], vec![F::ZERO, F::ONE], vec![F::ONE, F::ZERO]];
        for n in [1usize, 2, 3, 4, 5, 7, 8] {
            lists.push(base[..n].to_vec());
        }
        for i in 0..8 {
            for d in [F::ONE, -F::ONE, F::from(256u64), F::from(1u64 << 32), base[0]] {
                let mut l = base.clone();
                l[i] += d;
                lists.push(l);
            }
            for j in 0..i {
                let mut l = base.clone();
                l.swap(i, j);
                lists.push(l);
            }
        }
        for k in 0..64u64 {
            lists.push(vec![F::from(k * k + 2), F::from(k)]);
        }
        for l in lists {
            let mut key = l.clone();
            key.resize(l.len().next_power_of_two(), F::ZERO);
            if let Some(other) = seen.insert(MerkleTree::new(l).root(), key.clone()) {
                ensure!(other == key, "two lists of leaves have the same root: {other:?} and {key:?}");
            }
        }
        Ok(())
    }

    /// So many roots that a hash which keeps few bits repeats itself.
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Lots {
        pub seed: u64,
        pub field: u8,
        /// 2^log lists
        pub log: u8,
        /// leaves in a list, and the one that changes
        pub leaves: u8,
        pub at: u8,
        pub digest: u8,
    }
    pub fn lots_run(c: &Lots, cx: &mut Cx) -> R {
        with!(c, lots_case(c, cx))
    }
    fn lots_case<T: Digest + Default, F: PrimeField>(c: &Lots, cx: &mut Cx) -> R {
        cx.nt(true);
        let n = c.leaves.max(1) as usize;
        let base: Vec<F> = PolyR::Rand(n as u16, c.seed).coeffs();
        let start = F::from(c.seed);
        let mut got: Vec<(u64, u64)> = (0..1u64 << c.log)
            .map(|i| {
                let mut l = base.clone();
                l.resize(n, F::ONE);
                l[c.at as usize % n] = start + F::from(i);
                (MerkleTree::new(l).root().into_bigint().as_ref()[0], i)
            })
            .collect();
        got.sort_unstable();
        if let Some(w) = got.windows(2).find(|w| w[0].0 == w[1].0) {
            return Err(format!("lists of {n} leaves that differ in one ({} and {} more than a seed) have the same root", w[0].1, w[1].1).into());
        }
        Ok(())
    }
}

fn f04() -> Check {
    #[allow(unused_mut)]
    let mut subs: Vec<Box<dyn DynSub>> = vec![Box::new(Sub {
        name: "through-proofs",
        rule: "an honest FRI proof with a changed leaf, value or position must be rejected. Every case is non-trivial.",
        quick: 2000,
        thorough: 5000,
        examples: vec![],
        strat: || {
            (setting(20, 6), (any::<u16>(), any::<u16>(), any::<bool>()), fe_nz(), 0u8..4)
                .prop_map(|(set, at, d, what)| Plain { set, at, d, what })
                .boxed()
        },
        run: plain_run,
    })];
    #[cfg(feature = "hooks")]
    {
        use f04x::*;
        let mut examples = Vec::new();
        for field in 0..2 {
            for n in (0..=9).chain([15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025]) {
                let edits = vec![
                    Edit::Leaf(0, Fe::One),
                    Edit::Index(0, 1),
                    Edit::Far(0, 0),
                    Edit::Far(30000, 9),
                    Edit::Node(40000, 0, Fe::One),
                    Edit::Node(40000, 65535, Fe::One),
                    Edit::DropNode(0, 65535),
                    Edit::DropNode(0, 0),
                    Edit::PushNode(0, Fe::Z, false),
                    Edit::Root(0, Fe::One),
                    Edit::Inner(0),
                    Edit::Bare(0),
                    Edit::PathOf(0, 65535),
                    Edit::IndexOf(0, 65535),
                ];
                examples.push(TreeCase { leaves: PolyR::Rand(n, 7), pad: 0, field, digest: 0, edits, other: (n.wrapping_mul(600), Fe::One) });
            }
        }
        subs.push(Box::new(Sub {
            name: "trees",
            rule: "leaves of any number up to 70 (random, small, repeated, zeros); all paths of the tree must be right and verify, and edited paths (leaf, position, nodes, root, length, parts of other positions, inner nodes) must not. Non-trivial: more than one leaf.",
            quick: 120000,
            thorough: 200000,
            examples,
            strat: tree_strategy,
            run: tree_run,
        }));
        subs.push(Box::new(Sub {
            name: "roots",
            rule: "about 150 lists of leaves that differ in one leaf, in order or in length; no two have the same root. Every case is non-trivial.",
            quick: 1000,
            thorough: 2000,
            examples: vec![],
            strat: || (any::<u64>(), 0u8..2).prop_map(|(seed, field)| Roots { seed, field, digest: 0 }).boxed(),
            run: roots_run,
        }));
        subs.push(Box::new(Sub {
            name: "lots",
            rule: "the roots of 2^15 lists of leaves that differ in one leaf (2^19 or 2^21 for the examples) are all different, so a root keeps at least some 36 bits. Every case is non-trivial.",
            quick: 30,
            thorough: 1000,
            examples: vec![
                Lots { seed: 1, field: 0, log: 21, leaves: 1, at: 0, digest: 0 },
                Lots { seed: 2, field: 0, log: 20, leaves: 2, at: 0, digest: 0 },
                Lots { seed: 3, field: 0, log: 20, leaves: 2, at: 1, digest: 0 },
                Lots { seed: 4, field: 0, log: 19, leaves: 4, at: 2, digest: 0 },
                Lots { seed: 5, field: 1, log: 19, leaves: 1, at: 0, digest: 0 },
                Lots { seed: 6, field: 1, log: 19, leaves: 2, at: 1, digest: 0 },
            ],
            strat: || (any::<u64>(), 0u8..2, 1u8..9, any::<u8>()).prop_map(|(seed, field, leaves, at)| Lots { seed, field, log: 15, leaves, at, digest: 0 }).boxed(),
            run: lots_run,
        }));
    }
    Check { id: "F04", assumptions: vec![FIELDS], subs }
}

// ---------------------------------------------------------------- F06

const P: u128 = 18446744069414584321;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Num {
    Small(u32),
    Max(u32),
    Near(u8, i8),
    Any(u64),
}
impl Num {
    fn v(&self) -> u64 {
        match self {
            Num::Small(x) => *x as u64,
            Num::Max(x) => (P as u64).wrapping_sub(*x as u64),
            Num::Near(k, d) => (1u64 << (k % 64)).wrapping_add(*d as i64 as u64),
            Num::Any(x) => *x,
        }
    }
}
fn num() -> BoxedStrategy<Num> {
    prop_oneof![
        2 => (0u32..10).prop_map(Num::Small),
        1 => any::<u32>().prop_map(Num::Small),
        2 => (0u32..10).prop_map(Num::Max),
        3 => (any::<u8>(), -3i8..=3).prop_map(|(a, b)| Num::Near(a, b)),
        5 => any::<u64>().prop_map(Num::Any),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arith {
    a: Num,
    b: Num,
    c: Num,
    bytes: Vec<u8>,
}
fn val(x: Gold) -> u128 {
    let l = x.into_bigint();
    assert_eq!(l.0.len(), 1);
    l.0[0] as u128
}
fn pow(b: u128, mut e: u64) -> u128 {
    let (mut r, mut b) = (1 % P, b % P);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}
fn arith_run(c: &Arith, cx: &mut Cx) -> R {
    use ark_ff::Field;
    let (a, b, e) = (c.a.v(), c.b.v(), c.c.v());
    let (am, bm) = (a as u128 % P, b as u128 % P);
    let (x, y) = (Gold::from(a), Gold::from(b));
    cx.nt(a > 1 && b > 1);
    cx.label_if(am != a as u128, "reduced");
    let eq = |what: &str, got: Gold, want: u128| -> R {
        ensure!(val(got) == want, "{what} of {a} and {b} (and {e}) is {} instead of {want}", val(got));
        ensure!(got == Gold::from(want as u64), "{what} of {a} and {b}: equality disagrees with the value");
        Ok(())
    };
    eq("conversion", x, am)?;
    eq("sum", x + y, (am + bm) % P)?;
    eq("difference", x - y, (am + P - bm) % P)?;
    eq("product", x * y, am * bm % P)?;
    eq("negation", -x, (P - am) % P)?;
    eq("double", x.double(), am * 2 % P)?;
    eq("square", x.square(), am * am % P)?;
    eq("power", x.pow([e]), pow(am, e))?;
    match x.inverse() {
        None => ensure!(am == 0, "{a} has no inverse"),
        Some(i) => {
            ensure!(am != 0, "zero has an inverse");
            eq("inverse", i, pow(am, P as u64 - 2))?;
            eq("quotient", y / x, bm * pow(am, P as u64 - 2) % P)?;
        }
    }
    let wide = (a as u128) << 64 | b as u128;
    ensure!(val(Gold::from(wide)) == wide % P, "conversion of {wide}");
    ensure!(val(Gold::from(-(a as i64 >> 1))) == ((P as i128 - (a as i64 >> 1) as i128).rem_euclid(P as i128)) as u128, "conversion of a negative number");
    let want = c.bytes.iter().rev().fold(0u128, |r, x| (r * 256 + *x as u128) % P);
    ensure!(val(Gold::from_le_bytes_mod_order(&c.bytes)) == want, "conversion of bytes {:?}", c.bytes);
    let want = c.bytes.iter().fold(0u128, |r, x| (r * 256 + *x as u128) % P);
    ensure!(val(Gold::from_be_bytes_mod_order(&c.bytes)) == want, "conversion of big-endian bytes {:?}", c.bytes);
    if am != 0 {
        ensure!(x.to_string() == am.to_string(), "{am} is shown as {x}");
    }
    ensure!(Gold::from_bigint(ark_ff::BigInt([a])).is_some() == ((a as u128) < P), "conversion of the integer {a}");
    let qr = am == 0 || pow(am, (P as u64 - 1) / 2) == 1;
    match x.sqrt() {
        Some(s) => eq("square of the square root", s * s, am)?,
        None => ensure!(!qr, "the square {a} has no root"),
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dom {
    log: u8,
    i: u64,
}
fn dom_run(c: &Dom, cx: &mut Cx) -> R {
    use ark_ff::{FftField, Field, One};
    let g = Gold::GENERATOR;
    for q in [2u64, 3, 5, 17, 257, 65537] {
        ensure!(!g.pow([(P as u64 - 1) / q]).is_one(), "the generator's order divides (p-1)/{q}");
    }
    ensure!(g.pow([P as u64 - 1]).is_one(), "the generator's order does not divide p-1");
    ensure!(val(-Gold::ONE) + 1 == P, "the modulus is not 2^64 - 2^32 + 1");
    let k = c.log as u32;
    cx.label(format!("2^{k}"));
    cx.nt(k > 0);
    if k > 32 {
        ensure!(Gold::get_root_of_unity(1u64 << k).is_none(), "a root of unity of order 2^{k} is claimed");
        return Ok(());
    }
    let w = Gold::get_root_of_unity(1u64 << k).ok_or(format!("no root of unity of order 2^{k}"))?;
    ensure!(pow(val(w), 1u64 << k) == 1, "the root of unity of 2^{k} has a larger order");
    ensure!(k == 0 || pow(val(w), 1u64 << (k - 1)) == P - 1, "the root of unity of 2^{k} has a smaller order");
    let n = 1usize << k;
    let d = GeneralEvaluationDomain::<Gold>::new(n).ok_or(format!("no domain of size 2^{k}"))?;
    ensure!(d.size() == n, "the domain of size 2^{k} has size {}", d.size());
    ensure!(d.group_gen() == w, "the domain of size 2^{k} has another generator");
    let i = (c.i % n as u64) as usize;
    ensure!(val(d.element(i)) == pow(val(w), i as u64), "element {i} of the domain of size 2^{k}");
    if k >= 1 {
        ensure!(d.element((i + n / 2) % n) == -d.element(i), "the mirror of element {i} is not its negation");
    }
    let next = Gold::get_root_of_unity(1u64 << k.saturating_sub(1)).unwrap();
    ensure!(k == 0 || w.square() == next, "the roots of unity of 2^{k} and 2^{} do not fit", k - 1);
    // the generator's coset does not meet the domain
    ensure!(!Gold::GENERATOR.pow([n as u64]).is_one(), "the generator lies in the domain of size 2^{k}");
    Ok(())
}
fn f06() -> Check {
    Check {
        id: "F06",
        assumptions: vec!["the 128-bit integer arithmetic of the reference"],
        subs: vec![
            Box::new(Sub {
                name: "arithmetic",
                rule: "two numbers of 64 bits (small, near the modulus, near powers of two, any) and an exponent; every operation against 128-bit integers. Non-trivial: both above 1.",
                quick: 150000,
                thorough: 3000000,
                examples: vec![],
                strat: || (num(), num(), num(), prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(a, b, c, bytes)| Arith { a, b, c, bytes }).boxed(),
                run: arith_run,
            }),
            Box::new(Sub {
                name: "domains",
                rule: "each power of two up to 2^40 and positions in it: order of the root, size, elements, mirror, generator. Non-trivial: above 2^0.",
                quick: 10000,
                thorough: 100000,
                examples: (0..=40).map(|log| Dom { log, i: 12345678901 }).collect(),
                strat: || (0u8..=36, any::<u64>()).prop_map(|(log, i)| Dom { log, i }).boxed(),
                run: dom_run,
            }),
        ],
    }
}

// ---------------------------------------------------------------- V01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Garbage {
    domain: Size,
    coset: Fe,
    queries: Size,
    roots: Vec<Fe>,
    constant: Fe,
    decs: Vec<GDec>,
    /// repeat the roots or decommitments so that their number fits the domain or the queries
    fit: u8,
    field: u8,
    digest: u8,
    base: Option<Setting>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Size {
    N(u16),
    Pow(u8),
    Near(u8, i8),
    Any(u64),
}
impl Size {
    fn v(&self) -> usize {
        match self {
            Size::N(n) => *n as usize,
            Size::Pow(k) => 1usize << (k % 64),
            Size::Near(k, d) => (1usize << (k % 64)).wrapping_add(*d as isize as usize),
            Size::Any(x) => *x as usize,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GDec {
    e: Vec<Fe>,
    s: Vec<Fe>,
    a: Vec<GPath>,
    b: Vec<GPath>,
    fit: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GPath {
    index: Size,
    leaf: Fe,
    nodes: Vec<Fe>,
    root: Fe,
    /// repeat the nodes up to this number
    len: u16,
    /// the layer's own root, and a position that fits
    fit: bool,
}
fn size() -> BoxedStrategy<Size> {
    prop_oneof![
        3 => (0u16..20).prop_map(Size::N),
        4 => any::<u8>().prop_map(Size::Pow),
        4 => (0u8..8).prop_map(Size::Pow),
        2 => (any::<u8>(), -2i8..=2).prop_map(|(a, b)| Size::Near(a, b)),
        1 => any::<u64>().prop_map(Size::Any),
        1 => Just(Size::Any(u64::MAX)),
    ]
    .boxed()
}
fn gpath() -> BoxedStrategy<GPath> {
    (size(), fe(), prop::collection::vec(fe(), 0..4), fe(), prop_oneof![4 => 0u16..8, 1 => 0u16..200], any::<bool>())
        .prop_map(|(index, leaf, nodes, root, len, fit)| GPath { index, leaf, nodes, root, len, fit })
        .boxed()
}
fn gdec() -> BoxedStrategy<GDec> {
    let v = || prop::collection::vec(fe(), 0..6);
    let p = || prop::collection::vec(gpath(), 0..5);
    (v(), v(), p(), p(), prop_oneof![3 => Just(true), 1 => Just(false)]).prop_map(|(e, s, a, b, fit)| GDec { e, s, a, b, fit }).boxed()
}
fn garbage() -> BoxedStrategy<Garbage> {
    let f = prop_oneof![1 => Just(0u8), 1 => any::<u8>(), 4 => Just(3u8)];
    (
        (size(), fe(), size(), prop::collection::vec(fe(), 0..8), fe()),
        prop::collection::vec(gdec(), 0..4),
        (f, 0u8..2, digest(), prop_oneof![2 => Just(None), 1 => setting(9, 4).prop_map(Some)]),
    )
        .prop_map(|((domain, coset, queries, roots, constant), decs, (fit, field, digest, base))| Garbage { domain, coset, queries, roots, constant, decs, fit, field, digest, base })
        .boxed()
}
fn fit<T: Clone>(v: &[T], n: usize) -> Vec<T> {
    if v.is_empty() {
        vec![]
    } else {
        (0..n).map(|i| v[i % v.len()].clone()).collect()
    }
}
fn garbage_run(c: &Garbage, cx: &mut Cx) -> R {
    with!(c, garbage_case(c, cx))
}
fn garbage_case<T: Digest + Default, F: PrimeField>(c: &Garbage, cx: &mut Cx) -> R {
    let vals = |v: &[Fe]| v.iter().map(Fe::f::<F>).collect::<Vec<F>>();
    let n = c.domain.v();
    let k = if n.is_power_of_two() { n.trailing_zeros() as usize } else { 3 };
    let mut layers_root = vals(&c.roots);
    if c.fit & 1 == 1 {
        layers_root = fit(&layers_root, k);
    }
    // without the hooks, paths come from an honest proof
    let base: Option<Proof<F>> = c.base.as_ref().map(|s| s.prove::<T, F>());
    let stock: Vec<_> = base.iter().flat_map(|p| p.decommitment_list.iter().flat_map(|d| d.auth_paths.iter().chain(&d.sym_auth_paths).cloned())).collect();
    let paths = |v: &[GPath], at: &[F], want: Option<usize>| {
        let mut out = Vec::new();
        let v = match want {
            Some(k) => fit(v, k),
            None => v.to_vec(),
        };
        for (l, g) in v.iter().enumerate() {
            #[cfg(feature = "hooks")]
            {
                let nodes: Vec<F> = fit(&vals(&g.nodes), g.len as usize);
                let leaf = if g.fit { at.get(l).copied().unwrap_or_default() } else { g.leaf.f() };
                let root = if g.fit { layers_root.get(l).copied().unwrap_or_default() } else { g.root.f() };
                out.push(MerkleProof::from_parts(g.index.v(), leaf, nodes, root));
            }
            #[cfg(not(feature = "hooks"))]
            if let Some(p) = stock.get(l) {
                let mut p = p.clone();
                p.index = g.index.v();
                p.leaf_val = if g.fit { at.get(l).copied().unwrap_or_default() } else { g.leaf.f() };
                out.push(p);
            }
        }
        out
    };
    let mut list = Vec::new();
    for d in &c.decs {
        let want = d.fit.then_some(layers_root.len());
        let (mut e, mut s) = (vals(&d.e), vals(&d.s));
        if let Some(k) = want {
            e = fit(&e, k);
            s = fit(&s, k);
        }
        list.push(Decommitment { auth_paths: paths(&d.a, &e, want), sym_auth_paths: paths(&d.b, &s, want), evaluations: e, sym_evaluations: s });
    }
    let mut number_of_queries = c.queries.v();
    if c.fit & 2 == 2 {
        number_of_queries = list.len();
    }
    let mut p = Proof { domain_size: n, coset: c.coset.f(), number_of_queries, layers_root, const_val: c.constant.f(), decommitment_list: list };
    if let Some(b) = base {
        // parts of an honest proof
        if c.fit & 4 == 4 {
            p.decommitment_list = b.decommitment_list;
        }
        if c.fit & 8 == 8 {
            p.layers_root = b.layers_root;
        }
        if c.fit & 16 == 16 {
            p.domain_size = b.domain_size;
        }
        if c.fit & 32 == 32 {
            p.number_of_queries = b.number_of_queries;
        }
        if c.fit & 64 == 64 {
            p.coset = b.coset;
        }
        let _ = &stock;
    }
    cx.nt(!p.decommitment_list.is_empty() && !p.layers_root.is_empty());
    cx.label_if(p.layers_root.len() == k && n.is_power_of_two(), "layers fit the domain");
    cx.label_if(p.number_of_queries == p.decommitment_list.len(), "decommitments fit the queries");
    cx.label_if(p.number_of_queries > 1 << 20, "very many queries");
    cx.label_if(n > 1 << 20, "very large domain");
    match judge::<T, F>(&p) {
        Ok(Ok(())) => cx.label("accepted"),
        Ok(Err(m)) => cx.label(format!("rejected: {m}")),
        Err(m) => return Err(format!("the verifier panics: {m}").into()),
    }
    Ok(())
}

#[cfg(feature = "hooks")]
fn tampered_run(c: &f03x::Tamper, cx: &mut Cx) -> R {
    with!(c.set, tampered_case(c, cx))
}
#[cfg(feature = "hooks")]
fn tampered_case<T: Digest + Default, F: PrimeField>(c: &f03x::Tamper, cx: &mut Cx) -> R {
    let mut p = c.set.prove::<T, F>();
    for m in &c.muts {
        f03x::apply::<T, F>(&mut p, m);
        let name = format!("{m:?}");
        cx.label(name.split('(').next().unwrap());
    }
    cx.nt(!c.muts.is_empty());
    judge::<T, F>(&p).map_err(|m| format!("the verifier panics: {m}"))?.map_or_else(|_| Ok(()), Ok)
}

fn v01() -> Check {
    let gp = |index, len| GPath { index, leaf: Fe::One, nodes: vec![Fe::One], root: Fe::One, len, fit: true };
    let gd = |index: u64| GDec { e: vec![Fe::One], s: vec![Fe::One], a: vec![gp(Size::Any(index), 3)], b: vec![gp(Size::Any(index), 3)], fit: true };
    let g = |domain, queries, roots: usize, decs, fit| Garbage { domain, coset: Fe::One, queries, roots: vec![Fe::One; roots], constant: Fe::One, decs, fit, field: 0, digest: 0, base: None };
    let mut examples = vec![
        g(Size::N(0), Size::N(0), 0, vec![], 0),
        g(Size::N(0), Size::N(1), 0, vec![gd(0)], 0),
        g(Size::N(1), Size::N(1), 0, vec![gd(0)], 0),
        g(Size::N(3), Size::N(1), 1, vec![gd(0)], 0),
        g(Size::Pow(63), Size::N(1), 1, vec![gd(0)], 3),
        g(Size::Pow(32), Size::N(1), 1, vec![gd(0)], 3),
        g(Size::Pow(33), Size::N(1), 1, vec![gd(0)], 3),
        g(Size::Any(u64::MAX), Size::Any(u64::MAX), 1, vec![gd(0)], 0),
        g(Size::Pow(4), Size::Pow(40), 4, vec![gd(0)], 0),
        g(Size::Pow(4), Size::Any(u64::MAX), 4, vec![gd(0)], 0),
        g(Size::Pow(2), Size::N(1), 2, vec![gd(u64::MAX)], 0),
        g(Size::Pow(2), Size::N(5), 2, vec![], 0),
        g(Size::Pow(2), Size::N(1), 0, vec![gd(0)], 0),
        g(Size::Pow(2), Size::N(1), 7, vec![gd(0)], 0),
    ];
    let mut z = g(Size::Pow(2), Size::N(1), 2, vec![gd(1)], 0);
    z.coset = Fe::Z;
    examples.push(z);
    let mut fr = examples.clone();
    fr.iter_mut().for_each(|e| e.field = 1);
    examples.extend(fr);
    #[allow(unused_mut)]
    let mut subs: Vec<Box<dyn DynSub>> = vec![Box::new(Sub {
        name: "garbage",
        rule: "proofs put together from any numbers, lengths, sizes and positions (0 to 2^64-1), parts of which are made to fit each other or are taken from an honest proof; the verifier must answer. A case that ends the process, or ends in nothing within the CPU limit, counts as no answer. Non-trivial: has decommitments and layers.",
        quick: 120000,
        thorough: 2000000,
        examples,
        strat: garbage,
        run: garbage_run,
    })];
    #[cfg(feature = "hooks")]
    subs.push(Box::new(Sub {
        name: "tampered",
        rule: "honest proofs with one to five changes of any part; the verifier must answer. Non-trivial: changed.",
        quick: 60000,
        thorough: 600000,
        examples: {
            let mut v = Vec::new();
            for field in 0..2 {
                for what in 0..11 {
                    for side in [false, true] {
                        for layer in [0, 30000, 65535] {
                            for f in [Fe::Z, Fe::One] {
                                v.push(f03x::Tamper { set: set(PolyR::Rand(8, 3), 2, 4, field, 0), muts: vec![f03x::Mut::Put((0, layer, side), what, f)] });
                            }
                        }
                    }
                }
            }
            v
        },
        strat: || (setting(20, 6), prop::collection::vec(f03x::mutation(), 1..6)).prop_map(|(set, muts)| f03x::Tamper { set, muts }).boxed(),
        run: tampered_run,
    }));
    Check { id: "V01", assumptions: vec!["20 GB of address space stand for memory out of proportion to the proof"], subs }
}
