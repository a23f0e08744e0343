//! Nova: R1CS satisfaction, folding and folding proofs (N01 to N04, N08).

use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::types::ScalarField;
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::{create_trivial_pair, is_r1cs_satisfied, FInstance, FWitness};
use nova::transcript::Transcript;
use nova::utils::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::digests::{Rec, Salted};
use crate::fw::{catch, Check, Cx, Sub, R};
use crate::gen::*;
use crate::nova_model::*;

#[macro_export]
macro_rules! nova_digest {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 6 {
            0 => $f::<sha2_10::Sha256>($($a),*),
            1 => $f::<Salted<9>>($($a),*),
            2 => $f::<Rec>($($a),*),
            3 => $f::<sha2_10::Sha512>($($a),*),
            4 => $f::<sha2_10::Sha384>($($a),*),
            _ => $f::<$crate::digests::Short>($($a),*),
        }
    };
}

pub trait Dg: sha2_10::Digest + Default + std::io::Write {}
impl<T: sha2_10::Digest + Default + std::io::Write> Dg for T {}

pub fn check(id: &str) -> Option<Check> {
    match id {
        "N01" => Some(n01()),
        "N02" => Some(n02()),
        "N03" => Some(n03()),
        "N04" => Some(n04()),
        "N08" => Some(n08()),
        "N09" => Some(n09()),
        _ => None,
    }
}

pub fn same(a: &FInstance, b: &FInstance) -> bool {
    a.com_e == b.com_e && a.com_w == b.com_w && a.u == b.u && a.x == b.x
}
pub fn shift(c: &KzgCommitment, d: Fr) -> KzgCommitment {
    KzgCommitment((c.0 + g1(d)).into())
}
fn program(cx: &mut Cx, k: &Setup) {
    cx.label(match k.defs {
        Some(_) => "circuit",
        None => "any structure",
    });
    cx.label_if(k.rows() == 0, "no constraint");
    cx.label_if(k.rows() > k.r1cs.num_vars, "more constraints than variables");
    cx.label_if(k.rows() < k.r1cs.num_vars, "fewer constraints than variables");
    cx.label_if(k.r1cs.num_io == 0, "no public value");
    cx.label_if(k.r1cs.num_io > 1, "several public values");
}

// ---------------------------------------------------------------- N01

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ed {
    W(u16, Fe, bool),
    X(u16, Fe),
    U(Fe),
    E(u16, Fe, bool),
    E2(u16, u16, Fe),
    ComW(Fe),
    ComE(Fe),
    SwapComs,
    NegComs(bool),
    LenW(bool, Fe),
    LenX(bool, Fe),
    /// zeros at the end of E, and a last value
    LenE(u8, Fe),
    /// E without its last entries
    CutE(u8),
    /// (w, x, u) and E scaled so that it stays satisfied
    Scale(Fe),
    Matrix(u8, u16, u16, Fe),
    AddRow(Fe, Fe, Fe),
    DropRow,
    Io(bool),
    Vars(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct N01 {
    shape: Shape,
    pair: PairR,
    edits: Vec<Ed>,
}
fn n01_run(c: &N01, cx: &mut Cx) -> R {
    let mut k = c.shape.setup();
    let (mut w, mut i) = c.pair.pair(&k);
    ensure!(satisfied(&k, &i, &w).is_ok(), "harness: the pair is not satisfied");
    let got = is_r1cs_satisfied(&k.r1cs, &i, &w, &k.scheme);
    ensure!(got.is_ok(), "a satisfied pair is refused: {got:?}");
    for e in &c.edits {
        match e {
            Ed::W(j, d, re) if !w.w.is_empty() => {
                let n = w.w.len();
                w.w[idx(*j, n)] += d.f::<Fr>();
                if *re {
                    i.com_w = k.com(&w.w);
                }
            }
            Ed::X(j, d) if !i.x.is_empty() => {
                let n = i.x.len();
                i.x[idx(*j, n)] += d.f::<Fr>();
            }
            Ed::U(d) => i.u += d.f::<Fr>(),
            Ed::E(j, d, re) if !w.e.is_empty() => {
                let n = w.e.len();
                w.e[idx(*j, n)] += d.f::<Fr>();
                if *re {
                    i.com_e = k.com(&w.e);
                }
            }
            Ed::E2(j, l, d) if !w.e.is_empty() => {
                let n = w.e.len();
                w.e[idx(*j, n)] += d.f::<Fr>();
                w.e[idx(*l, n)] -= d.f::<Fr>();
                i.com_e = k.com(&w.e);
            }
            Ed::ComW(d) => i.com_w = shift(&i.com_w, d.f()),
            Ed::ComE(d) => i.com_e = shift(&i.com_e, d.f()),
            Ed::SwapComs => std::mem::swap(&mut i.com_e, &mut i.com_w),
            Ed::NegComs(e) => {
                let c = if *e { &mut i.com_e } else { &mut i.com_w };
                c.0 = -c.0;
            }
            Ed::LenW(more, d) => {
                if *more {
                    w.w.push(d.f())
                } else {
                    w.w.pop();
                }
                i.com_w = k.com(&w.w);
            }
            Ed::LenX(more, d) => {
                if *more {
                    i.x.push(d.f())
                } else {
                    i.x.pop();
                }
            }
            Ed::LenE(z, d) => {
                w.e.extend(vec![Fr::zero(); *z as usize % 5]);
                w.e.push(d.f());
                i.com_e = k.com(&w.e);
            }
            Ed::CutE(n) => {
                let left = w.e.len().saturating_sub(*n as usize);
                w.e.truncate(left);
                i.com_e = k.com(&w.e);
            }
            Ed::Scale(f) => {
                let f = f.f::<Fr>();
                w.w.iter_mut().for_each(|v| *v *= f);
                i.x.iter_mut().for_each(|v| *v *= f);
                i.u *= f;
                w.e.iter_mut().for_each(|v| *v *= f * f);
                i.com_w = k.com(&w.w);
                i.com_e = k.com(&w.e);
            }
            Ed::Matrix(m, r, j, d) if k.rows() > 0 => {
                let r = idx(*r, k.rows());
                let m = match m % 3 {
                    0 => &mut k.r1cs.matrix_a,
                    1 => &mut k.r1cs.matrix_b,
                    _ => &mut k.r1cs.matrix_c,
                };
                let n = m[r].len();
                if n > 0 {
                    m[r][idx(*j, n)] += d.f::<Fr>();
                }
            }
            Ed::AddRow(a, b, f) if k.rows() < k.r1cs.num_vars.max(2) => {
                // one more constraint on the last column, u
                let width = k.r1cs.num_vars + k.r1cs.num_io + 1;
                let row = |f: &Fe| {
                    let mut r = vec![Fr::zero(); width];
                    r[width - 1] = f.f();
                    r
                };
                k.r1cs.matrix_a.push(row(a));
                k.r1cs.matrix_b.push(row(b));
                k.r1cs.matrix_c.push(row(f));
            }
            Ed::DropRow => {
                k.r1cs.matrix_a.pop();
                k.r1cs.matrix_b.pop();
                k.r1cs.matrix_c.pop();
            }
            Ed::Io(more) => k.r1cs.num_io = if *more { k.r1cs.num_io + 1 } else { k.r1cs.num_io.saturating_sub(1) },
            Ed::Vars(more) => k.r1cs.num_vars = if *more { k.r1cs.num_vars + 1 } else { k.r1cs.num_vars.saturating_sub(1) },
            _ => {}
        }
    }
    let want = satisfied(&k, &i, &w);
    let got = is_r1cs_satisfied(&k.r1cs, &i, &w, &k.scheme);
    program(cx, &k);
    cx.label(match &want {
        Ok(()) => "satisfied".to_string(),
        Err(m) => m.split(' ').next().unwrap().to_string() + if m.contains("of") { " wrong" } else { " violated" },
    });
    cx.nt(!c.edits.is_empty() && k.rows() > 0);
    ensure!(want.is_ok() == got.is_ok(), "the check says {got:?}, the definition says {want:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Algebra {
    a: PolyR,
    b: PolyR,
    m: Vec<PolyR>,
    f: Fe,
    us: Vec<u64>,
}
fn algebra_run(c: &Algebra, cx: &mut Cx) -> R {
    let (a, b): (Vec<Fr>, Vec<Fr>) = (c.a.coeffs(), c.b.coeffs());
    let f = c.f.f::<Fr>();
    let m: Vec<Vec<Fr>> = c.m.iter().map(|r| r.coeffs()).collect();
    cx.nt(!a.is_empty() && !m.is_empty());
    let mv = matrix_vector_product(&m, &a);
    let want: Vec<Fr> = m.iter().map(|r| dot(r, &a)).collect();
    ensure!(mv == want, "matrix times vector: {mv:?} instead of {want:?}");
    cx.label_if(m.iter().any(|r| r.len() > a.len()), "row longer than the vector");
    cx.label_if(m.iter().any(|r| r.len() < a.len()), "row shorter than the vector");
    ensure!(vector_elem_product(&a, f) == a.iter().map(|x| *x * f).collect::<Vec<_>>(), "vector times element");
    let n = a.len().min(b.len());
    let (s, t) = (&a[..n], &b[..n]);
    let zip = |g: fn(Fr, Fr) -> Fr| s.iter().zip(t).map(|(x, y)| g(*x, *y)).collect::<Vec<_>>();
    ensure!(hadamard_product(s, t) == zip(|x, y| x * y), "hadamard product");
    ensure!(vec_add(s, t) == zip(|x, y| x + y), "sum");
    ensure!(vec_sub(s, t) == zip(|x, y| x - y), "difference");
    ensure!(vec_equal(&a, &b) == (a == b), "equality of {a:?} and {b:?}");
    ensure!(vec_equal(&a, &a.clone()), "equality with itself");
    for i in 0..a.len() {
        let mut o = a.clone();
        o[i] += Fr::one();
        ensure!(!vec_equal(&a, &o) && !vec_equal(&o, &a), "vectors that differ in entry {i} are equal");
    }
    let mut longer = a.clone();
    longer.push(Fr::zero());
    ensure!(!vec_equal(&a, &longer) && !vec_equal(&longer, &a), "a vector equals the one with a zero more");
    if a.len() != b.len() {
        cx.label("different lengths");
        ensure!(catch(|| vec_add(&a, &b)).is_err(), "vectors of {} and {} entries are added", a.len(), b.len());
        ensure!(catch(|| vec_sub(&a, &b)).is_err(), "vectors of {} and {} entries are subtracted", a.len(), b.len());
    }
    let us: Vec<usize> = c.us.iter().map(|x| *x as usize).collect();
    let fs: Vec<Fr> = c.us.iter().map(|x| Fr::from(*x)).collect();
    ensure!(to_f_vec::<Fr>(us.clone()) == fs, "conversion of {us:?}");
    let cut = us.len() / 3;
    let mm = to_f_matrix::<Fr>(&[us.clone(), us[cut..].to_vec(), vec![]]);
    ensure!(mm == [fs.clone(), fs[cut..].to_vec(), vec![]], "conversion of a matrix");
    Ok(())
}
fn ed() -> BoxedStrategy<Ed> {
    let u = any::<u16>;
    prop_oneof![
        4 => (u(), fe(), prop::bool::weighted(0.7)).prop_map(|(a, b, r)| Ed::W(a, b, r)),
        3 => (u(), fe()).prop_map(|(a, b)| Ed::X(a, b)),
        2 => fe().prop_map(Ed::U),
        4 => (u(), fe(), prop::bool::weighted(0.7)).prop_map(|(a, b, r)| Ed::E(a, b, r)),
        2 => (u(), u(), fe()).prop_map(|(a, b, c)| Ed::E2(a, b, c)),
        2 => fe().prop_map(Ed::ComW),
        2 => fe().prop_map(Ed::ComE),
        1 => Just(Ed::SwapComs),
        1 => any::<bool>().prop_map(Ed::NegComs),
        2 => (any::<bool>(), fe()).prop_map(|(a, b)| Ed::LenW(a, b)),
        2 => (any::<bool>(), fe()).prop_map(|(a, b)| Ed::LenX(a, b)),
        2 => (any::<u8>(), fe()).prop_map(|(a, b)| Ed::LenE(a, b)),
        2 => (1u8..4).prop_map(Ed::CutE),
        3 => fe().prop_map(Ed::Scale),
        4 => (0u8..3, u(), u(), fe()).prop_map(|(a, b, c, d)| Ed::Matrix(a, b, c, d)),
        1 => (fe(), fe(), fe()).prop_map(|(a, b, c)| Ed::AddRow(a, b, c)),
        1 => Just(Ed::DropRow),
        1 => any::<bool>().prop_map(Ed::Io),
        1 => any::<bool>().prop_map(Ed::Vars),
    ]
    .boxed()
}
fn n01() -> Check {
    Check {
        id: "N01",
        assumptions: vec!["field and curve arithmetic of ark-bls12-381"],
        subs: vec![
            Box::new(Sub {
                name: "exact",
                rule: "a satisfied pair of a generated structure, then up to three edits of witness, error vector, public values, scalar, commitments, lengths, matrices; the verdict is compared with the definition in the field before and after. Non-trivial: edited and at least one constraint.",
                quick: 6000,
                thorough: 200000,
                examples: bigs()
                    .into_iter()
                    .enumerate()
                    .flat_map(|(n, shape)| {
                        let n = n as u64;
                        let j = |i: u64| ((i * 6553 + 9973 * n) % 65536) as u16;
                        let all: Vec<Vec<Ed>> = vec![
                            vec![],
                            vec![Ed::W(65535, Fe::One, true)],
                            vec![Ed::W(j(1), Fe::R(n), true)],
                            vec![Ed::W(65535, Fe::One, false)],
                            vec![Ed::X(65535, Fe::One)],
                            vec![Ed::X(j(2), Fe::One)],
                            vec![Ed::U(Fe::One)],
                            vec![Ed::E(65535, Fe::One, true)],
                            vec![Ed::E(j(3), Fe::One, true)],
                            vec![Ed::E(65535, Fe::One, false)],
                            vec![Ed::E2(j(4), 65535, Fe::One)],
                            vec![Ed::ComW(Fe::One)],
                            vec![Ed::ComE(Fe::One)],
                            vec![Ed::LenW(true, Fe::Z)],
                            vec![Ed::LenX(true, Fe::Z)],
                            vec![Ed::CutE(1)],
                            vec![Ed::Scale(Fe::S(3))],
                            vec![Ed::Matrix(0, 65535, 65535, Fe::One)],
                            vec![Ed::Matrix(1, j(5), j(6), Fe::One)],
                            vec![Ed::Matrix(2, j(7), 65535, Fe::One)],
                        ];
                        all.into_iter().enumerate().map(move |(m, edits)| N01 {
                            shape: shape.clone(),
                            pair: if m % 2 == 0 { PairR::Fresh { w: n, few: vec![] } } else { PairR::Relaxed { w: n, few: vec![], u: Fe::R(n) } },
                            edits,
                        })
                    })
                    .collect(),
                strat: || (shape(), pair(), prop::collection::vec(ed(), 0..4)).prop_map(|(shape, pair, edits)| N01 { shape, pair, edits }).boxed(),
                run: n01_run,
            }),
            Box::new(Sub {
                name: "algebra",
                rule: "the matrix and vector helpers against their definitions, ragged matrices, vectors of any and different lengths, large numbers. Non-trivial: neither empty.",
                quick: 4000,
                thorough: 100000,
                examples: [40u16, 64, 65, 100, 257, 300]
                    .map(|n| Algebra {
                        a: PolyR::Rand(n, n as u64),
                        b: PolyR::Rand(n, 1 + n as u64),
                        m: (0..12).map(|i| PolyR::Rand(n - (i % 3) + 1, i as u64)).collect(),
                        f: Fe::R(n as u64),
                        us: (0..n as u64).map(|i| i.wrapping_mul(0x9e3779b97f4a7c15)).collect(),
                    })
                    .into(),
                strat: || {
                    let n = prop_oneof![2 => prop::collection::vec(0u64..20, 0..8), 1 => prop::collection::vec(any::<u64>(), 0..8)];
                    (poly(12), poly(12), prop::collection::vec(poly(12), 0..6), fe(), n).prop_map(|(a, b, m, f, us)| Algebra { a, b, m, f, us }).boxed()
                },
                run: algebra_run,
            }),
        ],
    }
}

// ---------------------------------------------------------------- N02

pub type Pair = (FWitness, FInstance);

/// Every relation one folding has to satisfy. Returns the folded pair.
fn fold<T: Dg>(k: &Setup, a: &Pair, b: &Pair, prefix: &[Fe], what: &str) -> Result<(Pair, KzgCommitment, Fr), crate::fw::Fail> {
    let r = &k.r1cs;
    let mut t = transcript::<T>(prefix);
    let (w, i, com_t, ch) = NIFS::<T>::prover(r, &a.0, &b.0, &a.1, &b.1, &k.scheme, &mut t);
    let (z1, z2) = (z(&a.0.w, &a.1.x, a.1.u), z(&b.0.w, &b.1.x, b.1.u));
    let term = cross(r, a.1.u, b.1.u, &z1, &z2);
    let got = NIFS::<T>::compute_t(r, a.1.u, b.1.u, &z1, &z2);
    ensure!(got == term, "{what}: cross term {got:?} instead of {term:?}");
    ensure!(com_t == k.com(&term), "{what}: commitment of the cross term");
    ensure!(!ch.is_zero(), "{what}: challenge zero");
    ensure!(w.w == lin(&a.0.w, &b.0.w, ch), "{what}: folded W");
    ensure!(trim(w.e.clone()) == trim(lin(&lin(&a.0.e, &term, ch), &b.0.e, ch * ch)), "{what}: folded E");
    ensure!(i.x == lin(&a.1.x, &b.1.x, ch), "{what}: folded x");
    ensure!(i.u == a.1.u + ch * b.1.u, "{what}: folded u");
    ensure!(i.com_w.0 == a.1.com_w.0 + b.1.com_w.0 * ch, "{what}: folded commitment of W");
    ensure!(i.com_e.0 == a.1.com_e.0 + com_t.0 * ch + b.1.com_e.0 * (ch * ch), "{what}: folded commitment of E");
    let v = NIFS::<T>::verifier(ch, &a.1, &b.1, &com_t);
    ensure!(same(&i, &v), "{what}: the verifier folds to another instance");
    Ok(((w, i), com_t, ch))
}
// the affine results compare with projective sums
pub fn transcript<T: Dg>(prefix: &[Fe]) -> Transcript<T> {
    let mut t = Transcript::<T>::default();
    for p in prefix {
        t.feed_scalar_num(p.f());
    }
    t
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    shape: Shape,
    pairs: Vec<PairR>,
    joins: Vec<(u16, u16)>,
    prefix: Vec<Fe>,
    digest: u8,
}
fn tree_run(c: &Tree, cx: &mut Cx) -> R {
    nova_digest!(c.digest, tree(c, cx))
}
fn tree<T: Dg>(c: &Tree, cx: &mut Cx) -> R {
    let k = c.shape.setup();
    program(cx, &k);
    let mut pool: Vec<Pair> = c.pairs.iter().map(|p| p.pair(&k)).collect();
    let n = pool.len();
    for (m, (i, j)) in c.joins.iter().enumerate() {
        // recent results are used more often
        let pick = |x: u16| if x % 3 == 0 { pool.len() - 1 } else { idx(x, pool.len()) };
        let (i, j) = (pick(*i), pick(*j));
        let what = format!("folding {m} ({i} with {j})");
        cx.label_if(i == j, "with itself");
        cx.label_if(i >= n && j >= n, "two folded pairs");
        cx.label_if(i < n && j >= n, "folded pair second");
        let (p, _, _) = fold::<T>(&k, &pool[i], &pool[j], &c.prefix, &what)?;
        if let Err(e) = satisfied(&k, &p.1, &p.0) {
            return Err(format!("{what}: the folded pair is not satisfied: {e}").into());
        }
        let got = is_r1cs_satisfied(&k.r1cs, &p.1, &p.0, &k.scheme);
        ensure!(got.is_ok(), "{what}: the folded pair is refused: {got:?}");
        cx.nt(nonzero(&p.0.w) && k.rows() > 0 && nonzero(&pool[i].0.w) && nonzero(&pool[j].0.w));
        cx.label_if(nonzero(&p.0.e), "error vector not zero");
        pool.push(p);
    }
    Ok(())
}

/// The combinations for any r and any values, satisfied or not.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Comb {
    r: Fe,
    e: [PolyR; 2],
    w: [PolyR; 2],
    x: [PolyR; 2],
    u: [Fe; 2],
    coms: [Fe; 5],
    t: PolyR,
}
fn comb_run(c: &Comb, cx: &mut Cx) -> R {
    let r = c.r.f::<Fr>();
    let fw = |k: usize| FWitness { e: c.e[k].coeffs(), w: c.w[k].coeffs() };
    let fi = |k: usize| FInstance { com_e: KzgCommitment(g1(c.coms[2 * k].f())), u: c.u[k].f(), com_w: KzgCommitment(g1(c.coms[2 * k + 1].f())), x: c.x[k].coeffs() };
    let (w1, w2, i1, i2) = (fw(0), fw(1), fi(0), fi(1));
    let t: Vec<Fr> = c.t.coeffs();
    cx.nt(!r.is_zero() && nonzero(&w2.w));
    cx.label_if(w1.w.len() != w2.w.len() || i1.x.len() != i2.x.len(), "lengths differ");
    cx.label_if(r.is_zero() || r.is_one(), "r is 0 or 1");
    let w = NIFS::<sha2_10::Sha256>::fold_witness(r, &w1, &w2, &t);
    ensure!(trim(w.w.clone()) == trim(lin(&w1.w, &w2.w, r)), "folded W: {:?}", w.w);
    ensure!(trim(w.e.clone()) == trim(lin(&lin(&w1.e, &t, r), &w2.e, r * r)), "folded E: {:?}", w.e);
    let com_t = KzgCommitment(g1(c.coms[4].f()));
    let f = [NIFS::<sha2_10::Sha256>::fold_instance(r, &i1, &i2, &com_t), NIFS::<sha2_10::Sha256>::verifier(r, &i1, &i2, &com_t)];
    let lg = |k: usize| c.coms[k].f::<Fr>();
    for f in &f {
        ensure!(f.x == lin(&i1.x, &i2.x, r), "folded x: {:?}", f.x);
        ensure!(f.u == i1.u + r * i2.u, "folded u: {}", f.u);
        ensure!(f.com_w.0 == g1(lg(1) + r * lg(3)), "folded commitment of W");
        ensure!(f.com_e.0 == g1(lg(0) + r * lg(4) + r * r * lg(2)), "folded commitment of E");
    }
    Ok(())
}
fn big_pairs(n: u64) -> Vec<PairR> {
    vec![
        PairR::Fresh { w: n, few: vec![] },
        PairR::Relaxed { w: n + 1, few: vec![], u: Fe::R(n) },
        PairR::Relaxed { w: n + 2, few: vec![Fe::Z], u: Fe::Z },
        PairR::Fresh { w: n + 3, few: vec![Fe::One] },
    ]
}
pub fn prefix() -> BoxedStrategy<Vec<Fe>> {
    prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(fe(), 1..3)].boxed()
}
fn n02() -> Check {
    Check {
        id: "N02",
        assumptions: vec!["field and curve arithmetic of ark-bls12-381", "sha2 and StdRng give the challenge"],
        subs: vec![
            Box::new(Sub {
                name: "trees",
                rule: "up to five satisfied pairs of a generated structure (fresh, relaxed, trivial, zero witness) folded in trees and chains of up to eight foldings, also with themselves, after any transcript prefix, with five digests; cross term, combinations, verifier's instance and satisfaction after each. Non-trivial: two operands with a non-zero witness and at least one constraint.",
                quick: 2600,
                thorough: 40000,
                examples: bigs()
                    .into_iter()
                    .enumerate()
                    .map(|(n, shape)| Tree {
                        shape,
                        pairs: big_pairs(n as u64),
                        joins: vec![(1, 65534), (3, 20002), (20002, 3), (3, 3), (40000, 3), (3, 65534)],
                        prefix: vec![],
                        digest: n as u8,
                    })
                    // a long chain
                    .chain([20usize, 40, 70].map(|n| Tree {
                        shape: bigs()[0].clone(),
                        pairs: big_pairs(n as u64),
                        joins: (0..n).map(|i| if i % 2 == 0 { (3, (i * 1500 % 8192) as u16 / 3 * 3 + 1) } else { ((i * 1500 % 8192) as u16 / 3 * 3 + 1, 3) }).collect(),
                        prefix: vec![],
                        digest: n as u8,
                    }))
                    .collect(),
                strat: || {
                    (shape(), prop::collection::vec(pair(), 2..6), prop::collection::vec((any::<u16>(), any::<u16>()), 1..9), prefix(), 0u8..6)
                        .prop_map(|(shape, pairs, joins, prefix, digest)| Tree { shape, pairs, joins, prefix, digest })
                        .boxed()
                },
                run: tree_run,
            }),
            Box::new(Sub {
                name: "combinations",
                rule: "folding with a chosen r of values that satisfy nothing, of equal and different lengths, compared with the stated combinations at the field level. Non-trivial: r and the second W not zero.",
                quick: 4000,
                thorough: 80000,
                examples: [20u16, 33, 64, 65, 130, 257]
                    .map(|n| {
                        let p = |k: u16, j: u64| PolyR::Rand(n + k, 10 * n as u64 + j);
                        Comb {
                            r: Fe::R(n as u64),
                            e: [p(0, 0), p(n % 2, 1)],
                            w: [p(0, 2), p(0, 3)],
                            x: [p(0, 4), p(n % 3, 5)],
                            u: [Fe::R(1), Fe::R(2)],
                            coms: [Fe::R(3), Fe::R(4), Fe::R(5), Fe::R(6), Fe::R(7)],
                            t: p(0, 6),
                        }
                    })
                    .into(),
                strat: || {
                    let p = || poly(7);
                    ((fe(), [p(), p()], [p(), p()]), ([p(), p()], [fe(), fe()], [fe(), fe(), fe(), fe(), fe()], p()))
                        .prop_map(|((r, e, w), (x, u, coms, t))| Comb { r, e, w, x, u, coms, t })
                        .boxed()
                },
                run: comb_run,
            }),
        ],
    }
}

// ---------------------------------------------------------------- N03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Br {
    W(u16, Fe),
    X(u16, Fe),
    U(Fe),
    E(u16, Fe),
    E2(u16, u16, Fe),
    ComW(Fe),
    ComE(Fe),
    /// witness changed after it was committed to
    Uncommitted(u16, Fe),
    LongX(Fe),
    LongW(Fe),
    LongE(Fe),
}
fn break_pair(k: &Setup, p: &mut Pair, b: &Br) {
    let (w, i) = p;
    let at = |v: &mut Vec<Fr>, j: &u16, d: &Fe| {
        let n = v.len();
        if n > 0 {
            v[idx(*j, n)] += d.f::<Fr>();
        }
    };
    match b {
        Br::W(j, d) => {
            at(&mut w.w, j, d);
            i.com_w = k.com(&w.w);
        }
        Br::X(j, d) => at(&mut i.x, j, d),
        Br::U(d) => i.u += d.f::<Fr>(),
        Br::E(j, d) => {
            at(&mut w.e, j, d);
            i.com_e = k.com(&w.e);
        }
        Br::E2(j, l, d) => {
            at(&mut w.e, j, d);
            let n = w.e.len();
            if n > 0 {
                w.e[idx(*l, n)] -= d.f::<Fr>();
            }
            i.com_e = k.com(&w.e);
        }
        Br::ComW(d) => i.com_w = shift(&i.com_w, d.f()),
        Br::ComE(d) => i.com_e = shift(&i.com_e, d.f()),
        Br::Uncommitted(j, d) => at(&mut w.w, j, d),
        Br::LongX(d) => i.x.push(d.f()),
        Br::LongW(d) => {
            w.w.push(d.f());
            i.com_w = k.com(&w.w);
        }
        Br::LongE(d) => {
            w.e.resize(k.rows(), Fr::zero());
            w.e.push(d.f());
            i.com_e = k.com(&w.e);
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    shape: Shape,
    bad: PairR,
    breaks: Vec<Br>,
    /// pairs folded in one after the other: on which side
    others: Vec<(PairR, bool)>,
    itself: u8,
    digest: u8,
}
fn broken_run(c: &Broken, cx: &mut Cx) -> R {
    nova_digest!(c.digest, broken(c, cx))
}
fn broken<T: Dg>(c: &Broken, cx: &mut Cx) -> R {
    let k = c.shape.setup();
    program(cx, &k);
    let mut p = c.bad.pair(&k);
    for b in &c.breaks {
        break_pair(&k, &mut p, b);
    }
    let why = match satisfied(&k, &p.1, &p.0) {
        Ok(()) => return cx.skip(),
        Err(e) => e,
    };
    cx.label(why.split(' ').next().unwrap().to_string() + if why.contains("of") { " wrong" } else { " violated" });
    cx.nt(true);
    let mut steps: Vec<(Pair, bool)> = c.others.iter().map(|(r, first)| (r.pair(&k), *first)).collect();
    if c.itself > 0 {
        // once folded with itself
        let n = steps.len();
        steps.insert(c.itself as usize % (n + 1), (p.clone(), true));
        cx.label("with itself");
    }
    for (m, (q, first)) in steps.iter().enumerate() {
        let (a, b) = if *first { (&p, q) } else { (q, &p) };
        cx.label(if *first { "broken first" } else { "broken second" });
        let (w, i, _, _) = NIFS::<T>::prover(&k.r1cs, &a.0, &b.0, &a.1, &b.1, &k.scheme, &mut Transcript::<T>::default());
        ensure!(
            is_r1cs_satisfied(&k.r1cs, &i, &w, &k.scheme).is_err(),
            "after {} foldings the pair passes the check, although one that was folded in does not ({why})",
            m + 1
        );
        ensure!(satisfied(&k, &i, &w).is_err(), "after {} foldings the violation ({why}) is gone", m + 1);
        p = (w, i);
    }
    Ok(())
}

/// A prover that knows the challenge r of a folding in advance and adapts the
/// second pair or the cross term so that the violation of the first cancels.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Launder {
    /// violation of the first pair moved into E of the second
    E2,
    /// ... into the cross term
    T,
    /// wrong commitment of W compensated in that of the second
    ComW,
    ComE,
    ComET,
    X(u16),
    U,
    /// one x in the first against one in the second
    ComTE2,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LaunderC {
    shape: Shape,
    a: PairR,
    b: PairR,
    breaks: Vec<Br>,
    how: Launder,
    d: Fe,
    prefix: Vec<Fe>,
    digest: u8,
}
fn launder_run(c: &LaunderC, cx: &mut Cx) -> R {
    nova_digest!(c.digest, launder(c, cx))
}
fn launder<T: Dg>(c: &LaunderC, cx: &mut Cx) -> R {
    let k = c.shape.setup();
    let a = c.a.pair(&k);
    let b = c.b.pair(&k);
    let d = c.d.f::<Fr>();
    let r = &k.r1cs;
    // the challenge of the original foldings
    let run = |a: &Pair, b: &Pair| {
        let mut t = transcript::<T>(&c.prefix);
        let (w, i, com_t, ch) = NIFS::<T>::prover(r, &a.0, &b.0, &a.1, &b.1, &k.scheme, &mut t);
        (w, i, com_t, ch, t)
    };
    let (mut a2, mut b2) = (a.clone(), b.clone());
    let (fw, fi, com_t, r0, mut t);
    match &c.how {
        Launder::E2 | Launder::T => {
            let Some(br) = c.breaks.first() else { return cx.skip() };
            if !matches!(br, Br::W(..) | Br::X(..) | Br::U(..) | Br::E(..)) {
                return cx.skip();
            }
            break_pair(&k, &mut a2, br);
            let v = violations(r, &a2.0.w, &a2.1.x, a2.1.u, &a2.0.e);
            if !nonzero(&v) {
                return cx.skip();
            }
            let (w0, i0, t0, ch, tr) = run(&a2, &b);
            (r0, t) = (ch, tr);
            let mut e = lin(&w0.e, &v, Fr::one());
            e.resize(e.len().max(1), Fr::zero());
            fw = FWitness { e, w: w0.w };
            let ri = inv(r0);
            if matches!(c.how, Launder::E2) {
                b2.0.e = lin(&b.0.e, &v, ri * ri);
                b2.1.com_e = k.com(&b2.0.e);
                com_t = t0;
            } else {
                com_t = shift(&t0, horner(&v, k.s) * ri);
            }
            let mut i = i0;
            i.com_e = k.com(&fw.e);
            fi = i;
        }
        how => {
            if d.is_zero() {
                return cx.skip();
            }
            let (w0, i0, t0, ch, tr) = run(&a, &b);
            (fw, fi, r0, t) = (w0, i0, ch, tr);
            let ri = inv(r0);
            let mut ct = t0;
            match how {
                Launder::ComW => {
                    a2.1.com_w = shift(&a.1.com_w, d);
                    b2.1.com_w = shift(&b.1.com_w, -d * ri);
                }
                Launder::ComE => {
                    a2.1.com_e = shift(&a.1.com_e, d);
                    b2.1.com_e = shift(&b.1.com_e, -d * ri * ri);
                }
                Launder::ComET => {
                    a2.1.com_e = shift(&a.1.com_e, d);
                    ct = shift(&ct, -d * ri);
                }
                Launder::ComTE2 => {
                    b2.1.com_e = shift(&b.1.com_e, d);
                    ct = shift(&ct, -d * r0);
                }
                Launder::X(j) => {
                    let n = a.1.x.len();
                    if n == 0 {
                        return cx.skip();
                    }
                    let j = idx(*j, n);
                    a2.1.x[j] += d;
                    b2.1.x[j] -= d * ri;
                }
                Launder::U => {
                    a2.1.u += d;
                    b2.1.u -= d * ri;
                }
                _ => unreachable!(),
            }
            com_t = ct;
        }
    }
    program(cx, &k);
    cx.label(format!("{:?}", c.how).split('(').next().unwrap().to_string());
    cx.nt(true);
    // the forged folding is consistent under r0
    let folded = NIFS::<T>::verifier(r0, &a2.1, &b2.1, &com_t);
    ensure!(same(&folded, &fi), "harness: the forged folding is not consistent");
    ensure!(satisfied(&k, &fi, &fw).is_ok() || k.rows() == 0, "harness: the forged folding is not satisfied");
    let proof = NIFS::<T>::prove(r0, &fw, &fi, &k.scheme, &mut t);
    let got = NIFS::<T>::verify(&proof, &a2.1, &b2.1, &folded, &com_t, &k.scheme, &mut transcript::<T>(&c.prefix));
    ensure!(got.is_err(), "a folding adapted to a challenge known in advance ({:?}) is accepted", c.how);
    // with the opening point of the verifier's own transcript
    if let Some(p) = reprove::<T>(r0, &fw, &a2.1, &b2.1, &fi, &com_t, &k, &c.prefix) {
        let got = NIFS::<T>::verify(&p, &a2.1, &b2.1, &folded, &com_t, &k.scheme, &mut transcript::<T>(&c.prefix));
        ensure!(got.is_err(), "a folding adapted to a challenge known in advance ({:?}), reproved, is accepted", c.how);
    }
    Ok(())
}
/// Openings at the point which the verifier's transcript gives for this statement.
#[allow(clippy::too_many_arguments)]
fn reprove<T: Dg>(r: Fr, fw: &FWitness, fi1: &FInstance, fi2: &FInstance, fi: &FInstance, com_t: &KzgCommitment, k: &Setup, prefix: &[Fe]) -> Option<NIFSProof> {
    // the verifier's transcript after the challenge check, by its own functions
    let mut t = transcript::<T>(prefix);
    let dummy = NIFSProof { r, opening_point: Fr::zero(), opening_e: KzgOpening(g1(Fr::zero()), Fr::zero()), opening_w: KzgOpening(g1(Fr::zero()), Fr::zero()) };
    // which stops at the wrong folded instance, before the openings
    let mut wrong = fi.clone();
    wrong.u += Fr::one();
    let _ = NIFS::<T>::verify(&dummy, fi1, fi2, &wrong, com_t, &k.scheme, &mut t);
    catch(|| NIFS::<T>::prove(r, fw, fi, &k.scheme, &mut t)).ok()
}
fn br() -> BoxedStrategy<Br> {
    let u = any::<u16>;
    prop_oneof![
        3 => (u(), fe_nz()).prop_map(|(a, b)| Br::W(a, b)),
        3 => (u(), fe_nz()).prop_map(|(a, b)| Br::X(a, b)),
        2 => fe_nz().prop_map(Br::U),
        3 => (u(), fe_nz()).prop_map(|(a, b)| Br::E(a, b)),
        1 => (u(), u(), fe_nz()).prop_map(|(a, b, c)| Br::E2(a, b, c)),
        2 => fe_nz().prop_map(Br::ComW),
        2 => fe_nz().prop_map(Br::ComE),
        1 => (u(), fe_nz()).prop_map(|(a, b)| Br::Uncommitted(a, b)),
        1 => fe().prop_map(Br::LongX),
        1 => fe().prop_map(Br::LongW),
        1 => fe_nz().prop_map(Br::LongE),
    ]
    .boxed()
}
fn n03() -> Check {
    Check {
        id: "N03",
        assumptions: vec!["field and curve arithmetic of ark-bls12-381", "a challenge of 64 bits does not hit the root of a low-degree polynomial"],
        subs: vec![
            Box::new(Sub {
                name: "broken",
                rule: "one pair broken in constraint, public value, scalar, commitment or length, then folded with up to five satisfied pairs and with itself, on either side; no result may be satisfied, by the check or by definition. Non-trivial: the pair is not satisfied.",
                quick: 4500,
                thorough: 60000,
                examples: bigs()
                    .into_iter()
                    .enumerate()
                    .flat_map(|(n, shape)| {
                        let j = |i: u64| ((i * 6553 + 9973 * n as u64) % 65536) as u16;
                        let bs = [Br::W(65535, Fe::One), Br::W(j(1), Fe::P2(77)), Br::X(65535, Fe::One), Br::X(j(2), Fe::One), Br::E(65535, Fe::One), Br::E2(j(3), j(4), Fe::One), Br::Uncommitted(65535, Fe::One)];
                        bs.into_iter().enumerate().map(move |(m, b)| Broken {
                            shape: shape.clone(),
                            bad: if m % 2 == 0 { PairR::Fresh { w: 5, few: vec![] } } else { PairR::Relaxed { w: 6, few: vec![], u: Fe::R(6) } },
                            breaks: vec![b],
                            others: vec![(PairR::Relaxed { w: 7, few: vec![], u: Fe::R(7) }, m % 2 == 0), (PairR::Fresh { w: 8, few: vec![] }, m % 3 == 0)],
                            itself: 0,
                            digest: n as u8,
                        })
                    })
                    // many foldings
                    .chain([20usize, 40].into_iter().enumerate().map(|(n, len)| Broken {
                        shape: bigs()[1].clone(),
                        bad: PairR::Fresh { w: 5, few: vec![] },
                        breaks: vec![Br::W(40000, Fe::One)],
                        others: (0..len as u64).map(|i| (PairR::Fresh { w: i, few: vec![] }, i % 2 == n as u64)).collect(),
                        itself: 0,
                        digest: n as u8,
                    }))
                    .collect(),
                strat: || {
                    (shape(), pair(), prop::collection::vec(br(), 1..3), prop::collection::vec((pair(), any::<bool>()), 1..6), prop_oneof![3 => Just(0u8), 1 => 1u8..8], 0u8..6)
                        .prop_map(|(shape, bad, breaks, others, itself, digest)| Broken { shape, bad, breaks, others, itself, digest })
                        .boxed()
                },
                run: broken_run,
            }),
            Box::new(Sub {
                name: "launder",
                rule: "a prover takes the challenge of one folding and then adapts one operand or the cross term so that a violation cancels under it: the folding proof must be rejected. Non-trivial: always.",
                quick: 2000,
                thorough: 40000,
                examples: bigs()
                    .into_iter()
                    .enumerate()
                    .flat_map(|(n, shape)| {
                        [Launder::E2, Launder::T, Launder::ComW, Launder::ComET, Launder::X(65535), Launder::U].map(|how| LaunderC {
                            shape: shape.clone(),
                            a: PairR::Fresh { w: 5, few: vec![] },
                            b: PairR::Relaxed { w: 7, few: vec![], u: Fe::R(7) },
                            breaks: vec![Br::W(65535 - n as u16, Fe::One)],
                            how,
                            d: Fe::R(n as u64),
                            prefix: vec![],
                            digest: n as u8,
                        })
                    })
                    .collect(),
                strat: || {
                    let how = prop_oneof![
                        2 => Just(Launder::E2),
                        2 => Just(Launder::T),
                        1 => Just(Launder::ComW),
                        1 => Just(Launder::ComE),
                        1 => Just(Launder::ComET),
                        1 => Just(Launder::ComTE2),
                        1 => any::<u16>().prop_map(Launder::X),
                        1 => Just(Launder::U),
                    ];
                    let value = prop_oneof![
                        (any::<u16>(), fe_nz()).prop_map(|(a, b)| Br::W(a, b)),
                        (any::<u16>(), fe_nz()).prop_map(|(a, b)| Br::X(a, b)),
                        fe_nz().prop_map(Br::U),
                        (any::<u16>(), fe_nz()).prop_map(|(a, b)| Br::E(a, b)),
                    ];
                    ((shape(), full_pair(), full_pair(), prop::collection::vec(value, 1)), (how, fe_nz(), prefix(), 0u8..6))
                        .prop_map(|((shape, a, b, breaks), (how, d, prefix, digest))| LaunderC { shape, a, b, breaks, how, d, prefix, digest })
                        .boxed()
                },
                run: launder_run,
            }),
        ],
    }
}

// ---------------------------------------------------------------- N04

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tm {
    R(Fe),
    Point(Fe),
    Eval(bool, Fe),
    Wit(bool, Fe),
    SwapOpenings,
    OpenAt(Fe),
    /// both vectors opened at a function of the point
    OpenFn(u8),
    /// witness or value of an opening negated, or of both
    NegWit(u8),
    NegEval(u8),
    /// the opened values exchanged with an unrelated opening that is correct at the point
    BothZero(u8),
    /// folded, and proved, with another r
    Refold(u8),
    /// openings of the operand's vectors instead of the folded ones: e or w
    OpenOther(bool, bool),
    /// which instance, field, index
    Fi(u8, u8, u16, Fe),
    Push(u8, Fe),
    Pop(u8),
    ComT(Fe),
    NegT,
    SwapFi,
    /// the third instance is the first or second
    Unfolded(bool),
    Prefix(Fe),
    /// the change of an operand is carried to the folded instance
    Carried(u8, bool, u16, Fe),
    /// ... and compensated in the other operand
    Compensated(u8, u16, Fe),
    /// of another folding: proof, and optionally folded instance and cross term
    Foreign(PairR, u8),
    /// proof and r for a changed folded instance, openings of an unrelated witness
    ProveOther(u64, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct N04 {
    shape: Shape,
    a: PairR,
    b: PairR,
    prefix: Vec<Fe>,
    digest: u8,
    tampers: Vec<Tm>,
}
fn n04_run(c: &N04, cx: &mut Cx) -> R {
    nova_digest!(c.digest, n04_case(c, cx))
}
pub struct Folding {
    pub proof: NIFSProof,
    pub fi: [FInstance; 3],
    pub com_t: KzgCommitment,
    pub prefix: Vec<Fr>,
}
impl Folding {
    pub fn verify<T: Dg>(&self, k: &Setup) -> Result<(), String> {
        let mut t = Transcript::<T>::default();
        self.prefix.iter().for_each(|p| t.feed_scalar_num(*p));
        NIFS::<T>::verify(&self.proof, &self.fi[0], &self.fi[1], &self.fi[2], &self.com_t, &k.scheme, &mut t)
    }
}
fn n04_case<T: Dg>(c: &N04, cx: &mut Cx) -> R {
    let k = c.shape.setup();
    program(cx, &k);
    let make = |a: &Pair, b: &Pair| {
        let mut t = transcript::<T>(&c.prefix);
        let (w, i, com_t, r) = NIFS::<T>::prover(&k.r1cs, &a.0, &b.0, &a.1, &b.1, &k.scheme, &mut t);
        let proof = NIFS::<T>::prove(r, &w, &i, &k.scheme, &mut t);
        (Folding { proof, fi: [a.1.clone(), b.1.clone(), i], com_t, prefix: c.prefix.iter().map(Fe::f).collect() }, w)
    };
    let (a, b) = (c.a.pair(&k), c.b.pair(&k));
    let (honest, fw) = make(&a, &b);
    // the proof is what it says
    let p = &honest.proof;
    ensure!(p.opening_e.1 == horner(&fw.e, p.opening_point), "opened value of E");
    ensure!(p.opening_w.1 == horner(&fw.w, p.opening_point), "opened value of W");
    for n in 0..2 {
        let got = honest.verify::<T>(&k);
        ensure!(got.is_ok(), "an honest folding proof is rejected (time {n}): {got:?}");
    }
    cx.nt(nonzero(&fw.w));
    for tm in &c.tampers {
        let mut f = Folding { proof: honest.proof.clone(), fi: honest.fi.clone(), com_t: honest.com_t.clone(), prefix: honest.prefix.clone() };
        let r = f.proof.r;
        let pt = f.proof.opening_point;
        let fld = |i: &mut FInstance, field: u8, j: u16, d: Fr| match field % 4 {
            0 => i.com_e = shift(&i.com_e, d),
            1 => i.com_w = shift(&i.com_w, d),
            2 => i.u += d,
            _ => {
                let n = i.x.len();
                if n > 0 {
                    i.x[idx(j, n)] += d;
                }
            }
        };
        match tm {
            Tm::R(d) => f.proof.r += d.f::<Fr>(),
            Tm::Point(d) => f.proof.opening_point += d.f::<Fr>(),
            Tm::Eval(e, d) => (if *e { &mut f.proof.opening_e } else { &mut f.proof.opening_w }).1 += d.f::<Fr>(),
            Tm::Wit(e, d) => {
                let o = if *e { &mut f.proof.opening_e } else { &mut f.proof.opening_w };
                o.0 = (o.0 + g1(d.f())).into();
            }
            Tm::SwapOpenings => std::mem::swap(&mut f.proof.opening_e, &mut f.proof.opening_w),
            Tm::OpenAt(d) => {
                f.proof.opening_point += d.f::<Fr>();
                f.proof.opening_e = k.scheme.open_vector(&fw.e, f.proof.opening_point);
                f.proof.opening_w = k.scheme.open_vector(&fw.w, f.proof.opening_point);
            }
            Tm::OpenFn(n) => {
                f.proof.opening_point = related(pt, r, *n);
                f.proof.opening_e = k.scheme.open_vector(&fw.e, f.proof.opening_point);
                f.proof.opening_w = k.scheme.open_vector(&fw.w, f.proof.opening_point);
            }
            Tm::NegWit(n) => {
                if n & 1 > 0 {
                    f.proof.opening_e.0 = -f.proof.opening_e.0;
                }
                if n & 2 > 0 {
                    f.proof.opening_w.0 = -f.proof.opening_w.0;
                }
            }
            Tm::NegEval(n) => {
                if n & 1 > 0 {
                    f.proof.opening_e.1 = -f.proof.opening_e.1;
                }
                if n & 2 > 0 {
                    f.proof.opening_w.1 = -f.proof.opening_w.1;
                }
            }
            Tm::BothZero(n) => {
                // the opening of the zero vector
                let none = KzgOpening(g1(Fr::zero()), Fr::zero());
                if n & 1 > 0 {
                    f.proof.opening_e = none.clone();
                }
                if n & 2 > 0 {
                    f.proof.opening_w = none;
                }
            }
            Tm::Refold(n) => {
                // everything as the honest prover makes it, but under a challenge of one's own
                let q = related(r, pt, *n);
                let mut t = transcript::<T>(&c.prefix);
                let _ = NIFS::<T>::prover(&k.r1cs, &a.0, &b.0, &a.1, &b.1, &k.scheme, &mut t);
                let i = NIFS::<T>::verifier(q, &a.1, &b.1, &f.com_t);
                let term = cross(&k.r1cs, a.1.u, b.1.u, &z(&a.0.w, &a.1.x, a.1.u), &z(&b.0.w, &b.1.x, b.1.u));
                let w = FWitness { w: lin(&a.0.w, &b.0.w, q), e: lin(&lin(&a.0.e, &term, q), &b.0.e, q * q) };
                f.proof = NIFS::<T>::prove(q, &w, &i, &k.scheme, &mut t);
                f.fi[2] = i;
            }
            Tm::OpenOther(e, first) => {
                let o = if *first { &a.0 } else { &b.0 };
                if *e {
                    f.proof.opening_e = k.scheme.open_vector(&o.e, pt);
                } else {
                    f.proof.opening_w = k.scheme.open_vector(&o.w, pt);
                }
            }
            Tm::Fi(n, field, j, d) => fld(&mut f.fi[*n as usize % 3], *field, *j, d.f()),
            Tm::Push(n, v) => f.fi[*n as usize % 3].x.push(v.f()),
            Tm::Pop(n) => {
                f.fi[*n as usize % 3].x.pop();
            }
            Tm::ComT(d) => f.com_t = shift(&f.com_t, d.f()),
            Tm::NegT => f.com_t.0 = -f.com_t.0,
            Tm::SwapFi => f.fi.swap(0, 1),
            Tm::Unfolded(first) => f.fi[2] = f.fi[usize::from(!first)].clone(),
            Tm::Prefix(d) => f.prefix.push(d.f()),
            Tm::Carried(field, first, j, d) => {
                let d = d.f::<Fr>();
                if *field % 5 == 4 {
                    f.com_t = shift(&f.com_t, d);
                    f.fi[2].com_e = shift(&f.fi[2].com_e, d * r);
                } else {
                    fld(&mut f.fi[usize::from(!first)], *field % 5, *j, d);
                    let by = match (first, field % 5) {
                        (true, _) => d,
                        (false, 0) => d * r * r,
                        (false, _) => d * r,
                    };
                    fld(&mut f.fi[2], *field % 5, *j, by);
                }
            }
            Tm::Compensated(field, j, d) => {
                let d = d.f::<Fr>();
                if *field % 5 == 4 {
                    f.com_t = shift(&f.com_t, d);
                    f.fi[0].com_e = shift(&f.fi[0].com_e, -d * r);
                } else {
                    fld(&mut f.fi[1], *field % 5, *j, d);
                    let by = if *field % 5 == 0 { d * r * r } else { d * r };
                    fld(&mut f.fi[0], *field % 5, *j, -by);
                }
            }
            Tm::Foreign(q, parts) => {
                let (o, _) = make(&a, &q.pair(&k));
                f.proof = o.proof;
                if parts & 1 > 0 {
                    f.com_t = o.com_t;
                }
                if parts & 2 > 0 {
                    f.fi[2] = o.fi[2].clone();
                }
            }
            Tm::ProveOther(seed, e) => {
                let o: Vec<Fr> = PolyR::Rand(if *e { fw.e.len() } else { fw.w.len() } as u16, *seed).coeffs();
                if *e {
                    f.proof.opening_e = k.scheme.open_vector(&o, pt);
                } else {
                    f.proof.opening_w = k.scheme.open_vector(&o, pt);
                }
            }
        }
        let (p, q) = (&f.proof, &honest.proof);
        let unchanged = p.r == q.r
            && p.opening_point == q.opening_point
            && (p.opening_e.0, p.opening_e.1) == (q.opening_e.0, q.opening_e.1)
            && (p.opening_w.0, p.opening_w.1) == (q.opening_w.0, q.opening_w.1)
            && (0..3).all(|i| same(&f.fi[i], &honest.fi[i]))
            && f.com_t == honest.com_t
            && f.prefix == honest.prefix;
        let got = f.verify::<T>(&k);
        let name = format!("{tm:?}");
        let name = name.split('(').next().unwrap();
        if unchanged {
            cx.label("tamper without effect");
            ensure!(got.is_ok(), "an honest folding proof is rejected: {got:?}");
        } else {
            cx.label(format!("{name}: {}", got.as_ref().err().map_or("accepted", |s| s)));
            ensure!(got.is_err(), "accepted after {tm:?}");
        }
    }
    Ok(())
}
/// Another value, made from a challenge.
fn related(x: Fr, y: Fr, n: u8) -> Fr {
    let two = Fr::from(2u64);
    match n % 14 {
        0 => -x,
        1 => Fr::zero(),
        2 => Fr::one(),
        3 => y,
        4 => inv(x),
        5 => x.square(),
        6 => x + x,
        7 => x + Fr::one(),
        8 => x - Fr::one(),
        9 => x * inv(two),
        10 => x * y,
        11 => x + y,
        12 => Fr::one() - x,
        // a 64-bit number moved up
        _ => x * two.pow([64]),
    }
}
fn tm() -> BoxedStrategy<Tm> {
    let u = any::<u16>;
    prop_oneof![
        2 => fe_nz().prop_map(Tm::R),
        2 => fe_nz().prop_map(Tm::Point),
        3 => (any::<bool>(), fe_nz()).prop_map(|(a, b)| Tm::Eval(a, b)),
        3 => (any::<bool>(), fe_nz()).prop_map(|(a, b)| Tm::Wit(a, b)),
        1 => Just(Tm::SwapOpenings),
        2 => fe_nz().prop_map(Tm::OpenAt),
        4 => (0u8..14).prop_map(Tm::OpenFn),
        1 => (1u8..4).prop_map(Tm::NegWit),
        1 => (1u8..4).prop_map(Tm::NegEval),
        1 => (1u8..4).prop_map(Tm::BothZero),
        4 => (0u8..14).prop_map(Tm::Refold),
        2 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Tm::OpenOther(a, b)),
        8 => (0u8..3, 0u8..4, u(), fe_nz()).prop_map(|(a, b, c, d)| Tm::Fi(a, b, c, d)),
        2 => (0u8..3, fe()).prop_map(|(a, b)| Tm::Push(a, b)),
        1 => (0u8..3).prop_map(Tm::Pop),
        2 => fe_nz().prop_map(Tm::ComT),
        1 => Just(Tm::NegT),
        1 => Just(Tm::SwapFi),
        1 => any::<bool>().prop_map(Tm::Unfolded),
        1 => fe().prop_map(Tm::Prefix),
        6 => (0u8..5, any::<bool>(), u(), fe_nz()).prop_map(|(a, b, c, d)| Tm::Carried(a, b, c, d)),
        5 => (0u8..5, u(), fe_nz()).prop_map(|(a, b, c)| Tm::Compensated(a, b, c)),
        2 => (full_pair(), 0u8..4).prop_map(|(a, b)| Tm::Foreign(a, b)),
        2 => (any::<u64>(), any::<bool>()).prop_map(|(a, b)| Tm::ProveOther(a, b)),
    ]
    .boxed()
}
fn n04() -> Check {
    Check {
        id: "N04",
        assumptions: vec!["pairing and curve arithmetic of ark-bls12-381", "no accidental 64-bit collision of challenges"],
        subs: vec![Box::new(Sub {
            name: "proofs",
            rule: "a folding of generated pairs (also relaxed, trivial, empty), its proof verified twice, then up to six changes of one part of proof or statement, consistent ones included, each of which must be rejected. Non-trivial: the folded witness is not zero.",
            quick: 3000,
            thorough: 30000,
            examples: bigs()
                .into_iter()
                .enumerate()
                .map(|(n, shape)| N04 {
                    shape,
                    a: PairR::Relaxed { w: 5, few: vec![], u: Fe::R(3) },
                    b: PairR::Relaxed { w: 7, few: vec![], u: Fe::R(7) },
                    prefix: vec![],
                    digest: n as u8,
                    tampers: (0..12u16)
                        .flat_map(|j| [Tm::Fi(j as u8, 3, 5461 * j + 5000, Fe::One), Tm::Carried(3, j % 2 == 0, 5461 * j + 5000, Fe::One), Tm::Compensated(3, 5461 * j + 5000, Fe::One)])
                        .chain([Tm::Pop(0), Tm::Pop(1), Tm::Pop(2), Tm::Push(2, Fe::Z), Tm::SwapOpenings, Tm::SwapFi, Tm::OpenFn(0), Tm::Refold(0), Tm::ProveOther(1, true), Tm::ProveOther(1, false)])
                        .collect(),
                })
                .collect(),
            strat: || {
                let p = || prop_oneof![3 => full_pair(), 1 => pair()];
                (shape(), p(), p(), prefix(), 0u8..6, prop::collection::vec(tm(), 1..7))
                    .prop_map(|(shape, a, b, prefix, digest, tampers)| N04 { shape, a, b, prefix, digest, tampers })
                    .boxed()
            },
            run: n04_run,
        })],
    }
}

// ---------------------------------------------------------------- N08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct N08 {
    shape: Shape,
    p: PairR,
    times: u8,
    digest: u8,
}
fn n08_run(c: &N08, cx: &mut Cx) -> R {
    nova_digest!(c.digest, n08_case(c, cx))
}
fn n08_case<T: Dg>(c: &N08, cx: &mut Cx) -> R {
    let k = c.shape.setup();
    program(cx, &k);
    let (io, vars) = (k.r1cs.num_io, k.r1cs.num_vars);
    let (w, i) = create_trivial_pair(io, vars, &k.scheme);
    let triv = (w, i);
    ensure!(triv.0.w == vec![ScalarField::zero(); vars], "W of the trivial pair: {:?}", triv.0.w);
    ensure!(triv.0.e.iter().all(|x| x.is_zero()), "E of the trivial pair: {:?}", triv.0.e);
    ensure!(triv.1.x == vec![ScalarField::zero(); io], "x of the trivial pair: {:?}", triv.1.x);
    ensure!(triv.1.u.is_zero(), "u of the trivial pair: {}", triv.1.u);
    let none = KzgCommitment(g1(Fr::zero()));
    ensure!(triv.1.com_e == none && triv.1.com_w == none, "commitments of the trivial pair: {:?}", triv.1);
    let ok = |p: &Pair, what: &str| -> R {
        if let Err(e) = satisfied(&k, &p.1, &p.0) {
            return Err(format!("{what} is not satisfied: {e}").into());
        }
        let got = is_r1cs_satisfied(&k.r1cs, &p.1, &p.0, &k.scheme);
        ensure!(got.is_ok(), "{what} is refused: {got:?}");
        Ok(())
    };
    ok(&triv, "the trivial pair")?;
    let p = c.p.pair(&k);
    cx.nt(nonzero(&p.0.w) && k.rows() > 0);
    // as the second operand it changes nothing, as the first it scales
    let mut q = p.clone();
    let mut s = p.clone();
    for n in 0..1 + c.times % 3 {
        q = fold::<T>(&k, &q, &triv, &[], "pair with trivial")?.0;
        ok(&q, "a pair folded with the trivial one")?;
        ensure!(same(&q.1, &p.1) && q.0.w == p.0.w && trim(q.0.e.clone()) == trim(p.0.e.clone()), "folding in the trivial pair changes the pair (time {n})");
        let (f, _, r) = fold::<T>(&k, &triv, &s, &[], "trivial with pair")?;
        ok(&f, "the trivial pair folded with a pair")?;
        ensure!(f.1.u == s.1.u * r && f.1.com_w.0 == s.1.com_w.0 * r && f.1.com_e.0 == s.1.com_e.0 * r.square(), "the trivial pair adds something of its own");
        s = f;
    }
    let (t, _, _) = fold::<T>(&k, &triv, &triv, &[], "trivial with trivial")?;
    ensure!(same(&t.1, &triv.1) && t.0.w == triv.0.w && !nonzero(&t.0.e), "the trivial pair folded with itself is no longer trivial");
    Ok(())
}
fn n08() -> Check {
    Check {
        id: "N08",
        assumptions: vec!["field and curve arithmetic of ark-bls12-381"],
        subs: vec![Box::new(Sub {
            name: "trivial",
            rule: "the trivial pair of a generated structure: its values, satisfaction, and folding with a satisfied pair on either side, repeatedly, and with itself. Non-trivial: a non-zero witness and at least one constraint.",
            quick: 2000,
            thorough: 50000,
            examples: bigs()
                .into_iter()
                .enumerate()
                .map(|(n, shape)| N08 { shape, p: PairR::Relaxed { w: 5, few: vec![], u: Fe::R(3) }, times: 2, digest: n as u8 })
                .collect(),
            strat: || (shape(), full_pair(), any::<u8>(), 0u8..6).prop_map(|(shape, p, times, digest)| N08 { shape, p, times, digest }).boxed(),
            run: n08_run,
        })],
    }
}

// ---------------------------------------------------------------- N09

/// A witness and public values, made fresh.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct N09 {
    shape: Shape,
    /// the values of a satisfied assignment of the structure, where it has one
    p: PairR,
    /// and changes of them: of w or x
    edits: Vec<(bool, u16, Fe)>,
    /// entries of E, and a value for one of them
    len: u8,
    e: Option<(u16, Fe)>,
    /// values more or less
    w_len: i8,
    x_len: i8,
}
fn n09_run(c: &N09, cx: &mut Cx) -> R {
    let k = c.shape.setup();
    program(cx, &k);
    let (p, i) = c.p.pair(&k);
    let (mut w, mut x) = (p.w, i.x);
    for (in_w, j, d) in &c.edits {
        let v = if *in_w { &mut w } else { &mut x };
        let n = v.len();
        if n > 0 {
            v[idx(*j, n)] += d.f::<Fr>();
        }
    }
    let resize = |v: &mut Vec<Fr>, d: i8| {
        let n = (v.len() as i64 + d as i64).max(0) as usize;
        v.resize(n, Fr::from(5u64))
    };
    resize(&mut w, c.w_len);
    resize(&mut x, c.x_len);
    let len = if c.len == 0 { k.rows() } else { c.len as usize - 1 };
    let mut fw = FWitness::new(&w, len);
    ensure!(fw.w == w, "the witness has other values: {:?}", fw.w);
    ensure!(fw.e == vec![Fr::zero(); len], "the error vector is not {len} zeros: {:?}", fw.e);
    let one = |fw: &FWitness, what: &str| -> Result<FInstance, crate::fw::Fail> {
        let i = fw.commit(&k.scheme, &x);
        ensure!(i.u.is_one(), "{what}: scalar {}", i.u);
        ensure!(i.x == x, "{what}: public values {:?}", i.x);
        ensure!(i.com_w == k.com(&fw.w), "{what}: commitment of W");
        ensure!(i.com_e == k.com(&fw.e), "{what}: commitment of E");
        ensure!(same(&i, &fw.commit(&k.scheme, &x)), "{what}: committed twice it is another instance");
        // accepted exactly where the structure is satisfied
        let got = is_r1cs_satisfied(&k.r1cs, &i, fw, &k.scheme);
        let want = satisfied(&k, &i, fw);
        ensure!(got.is_ok() == want.is_ok(), "{what}: the check says {got:?}, the definition says {want:?}");
        Ok(i)
    };
    let i = one(&fw, "fresh instance")?;
    let plain = w.len() == k.r1cs.num_vars && x.len() == k.r1cs.num_io && trim(fw.e.clone()).len() <= k.rows() && !nonzero(&violations(&k.r1cs, &w, &x, Fr::one(), &[]));
    let got = is_r1cs_satisfied(&k.r1cs, &i, &fw, &k.scheme);
    ensure!(got.is_ok() == plain, "a fresh instance of an assignment that {} the constraints: {got:?}", if plain { "satisfies" } else { "does not satisfy" });
    cx.label(if plain { "satisfied" } else { "not satisfied" });
    cx.nt(nonzero(&w) && k.rows() > 0);
    if let Some((j, d)) = &c.e {
        if len > 0 && len <= k.rows().max(k.r1cs.num_vars) {
            fw.e[idx(*j, len)] += d.f::<Fr>();
            one(&fw, "instance with an error vector")?;
        }
    }
    Ok(())
}
fn n09() -> Check {
    Check {
        id: "N09",
        assumptions: vec!["field and curve arithmetic of ark-bls12-381"],
        subs: vec![Box::new(Sub {
            name: "fresh",
            rule: "witness vectors and public values that satisfy a generated structure or do not, of fitting and other lengths, error vectors of any length; the witness made of them, the instance committed from it, and the satisfaction check against plain R1CS. Non-trivial: a non-zero witness and at least one constraint.",
            quick: 4000,
            thorough: 100000,
            examples: bigs()
                .into_iter()
                .flat_map(|shape| {
                    [vec![], vec![(true, 65535, Fe::One)], vec![(false, 65535, Fe::One)], vec![(true, 20000, Fe::S(3))]].map(|edits| N09 {
                        shape: shape.clone(),
                        p: PairR::Fresh { w: 3, few: vec![] },
                        edits,
                        len: 0,
                        e: Some((65535, Fe::One)),
                        w_len: 0,
                        x_len: 0,
                    })
                })
                .collect(),
            strat: || {
                let p = prop_oneof![
                    6 => (any::<u64>(), prop::collection::vec(fe(), 0..4)).prop_map(|(w, few)| PairR::Fresh { w, few }),
                    1 => full_pair(),
                ];
                let edits = prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((any::<bool>(), any::<u16>(), fe()), 1..3)];
                let off = || prop_oneof![12 => Just(0i8), 1 => -2i8..=2];
                let len = prop_oneof![3 => Just(0u8), 1 => 1u8..14];
                (shape(), p, edits, len, prop::option::of((any::<u16>(), fe_nz())), off(), off())
                    .prop_map(|(shape, p, edits, len, e, w_len, x_len)| N09 { shape, p, edits, len, e, w_len, x_len })
                    .boxed()
            },
            run: n09_run,
        })],
    }
}
