use std::collections::{HashMap, HashSet};
use std::process::Command;
use std::sync::Mutex;

use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective, G2Affine};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::{RngCore, SeedableRng};
use serde::{Deserialize, Serialize};

use crate::fw::{catch, Check, Cx, Sub, R};
use crate::gen::*;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "K01" => k01(),
        "K02" => k02(),
        "K03" => k03(),
        "K04" => k04(),
        "K05" => k05(),
        _ => return None,
    })
}

/// Values of this process to compare with other processes.
pub fn emit(what: &str) -> Vec<String> {
    match what {
        "srs" => (0..2).map(|_| Srs::new(4).g1_points()[1].to_string()).collect(),
        "plonk" => crate::plonk_checks::emit(),
        _ => vec![],
    }
}

/// What another process of this program emits.
pub fn emitted(what: &str) -> Vec<String> {
    let out = Command::new(std::env::current_exe().unwrap()).args(["emit", what]).output().unwrap();
    String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.strip_prefix("EMIT ")).map(String::from).collect()
}

// ---------------------------------------------------------------- K01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SrsCase {
    n: u16,
    s: Fe,
    other: Fe,
}

fn k01_secret(c: &SrsCase, cx: &mut Cx) -> R {
    let (n, s): (usize, Fr) = (c.n as usize, c.s.f());
    let srs = Srs::new_from_secret(s, n);
    let pts = srs.g1_points();
    ensure!(pts.len() == n + 3, "{} points for size {n}", pts.len());
    let mut exp = Vec::with_capacity(n + 3);
    let mut pow = Fr::one();
    for _ in 0..n + 3 {
        exp.push(G1Projective::from(G1Affine::generator()) * pow);
        pow *= s;
    }
    let exp = G1Projective::normalize_batch(&exp);
    for (i, (p, e)) in pts.iter().zip(&exp).enumerate() {
        ensure!(p == e, "point {i} of size {n} is not the generator times s^{i}");
    }
    ensure!(srs.g2() == G2Affine::generator(), "g2 is not the generator");
    ensure!(srs.g2s() == (G2Affine::generator() * s).into_affine(), "g2s is not s times the generator");
    // the string is what commitments are made of, so equality means the same string
    ensure!(srs == Srs::new_from_secret(s, n), "two strings of one secret differ");
    let o: Fr = c.other.f();
    if o != s {
        ensure!(srs != Srs::new_from_secret(o, n), "two strings of different secrets are equal");
        cx.label("two secrets");
    }
    cx.label(match n {
        0 => "size 0",
        1..=7 => "size 1-7",
        8..=63 => "size 8-63",
        _ => "size 64+",
    });
    cx.label_if(!matches!(c.s, Fe::R(_)), "special secret");
    cx.nt(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreshCase {
    n: u16,
    m: u16,
    seed: u64,
}

static SEEN: Mutex<Option<HashMap<String, ()>>> = Mutex::new(None);

fn baby_steps() -> &'static HashSet<Vec<u8>> {
    use ark_serialize::CanonicalSerialize;
    static T: std::sync::OnceLock<HashSet<Vec<u8>>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let g = G1Projective::from(G1Affine::generator());
        let mut v = Vec::with_capacity(1 << 15);
        let mut p = G1Projective::zero();
        for _ in 0..1 << 15 {
            v.push(p);
            p += g;
        }
        G1Projective::normalize_batch(&v)
            .iter()
            .map(|p| {
                let mut b = vec![];
                p.x().unwrap_or(&Default::default()).serialize_compressed(&mut b).unwrap();
                b
            })
            .collect()
    })
}

/// Is the discrete logarithm of `p` within 2^30 of zero?
fn small_dlog(p: G1Affine) -> bool {
    use ark_serialize::CanonicalSerialize;
    let table = baby_steps();
    let step = G1Projective::from(g1(Fr::from(1u64 << 15)));
    let mut up = G1Projective::from(p);
    let mut down = up;
    let mut v = Vec::with_capacity(1 << 16);
    for _ in 0..1 << 15 {
        v.push(up);
        v.push(down);
        up += step;
        down -= step;
    }
    G1Projective::normalize_batch(&v).iter().any(|q| {
        let mut b = vec![];
        q.x().unwrap_or(&Default::default()).serialize_compressed(&mut b).unwrap();
        table.contains(&b)
    })
}

fn structured(srs: &Srs, n: usize, seed: u64) -> R {
    let p = srs.g1_points();
    ensure!(p.len() == n + 3, "{} points for size {n}", p.len());
    ensure!(p[0] == G1Affine::generator() && srs.g2() == G2Affine::generator(), "the generators are not the first points");
    // the points are one geometric sequence with the ratio of the G2 points
    let mut rng = StdRng::seed_from_u64(seed);
    let (mut lo, mut hi) = (G1Projective::zero(), G1Projective::zero());
    for w in p.windows(2) {
        let r = Fr::rand(&mut rng);
        lo += w[0] * r;
        hi += w[1] * r;
    }
    ensure!(
        Bls12_381::pairing(lo, srs.g2s()) == Bls12_381::pairing(hi, srs.g2()),
        "the points are not powers of the secret in G2"
    );
    Ok(())
}

fn k01_fresh(c: &FreshCase, cx: &mut Cx) -> R {
    let (n, m) = (c.n as usize, c.m as usize);
    let a = Srs::new(n);
    let b = Srs::new(m);
    let t = std::thread::spawn(move || (Srs::new(n), Srs::new(n))).join().map_err(|_| "Srs::new panicked in a thread")?;
    structured(&a, n, c.seed)?;
    structured(&b, m, c.seed)?;
    let mut seen = SEEN.lock().unwrap();
    let seen = seen.get_or_insert_with(HashMap::new);
    for s in [&a, &b, &t.0, &t.1] {
        let p = s.g1_points()[1];
        ensure!(!p.is_zero() && p != G1Affine::generator() && p != -G1Affine::generator(), "degenerate secret 0, 1 or -1");
        let distinct: HashSet<_> = s.g1_points().iter().copied().collect();
        ensure!(distinct.len() == s.g1_points().len(), "the powers of the secret repeat");
        ensure!(seen.insert(p.to_string(), ()).is_none(), "two strings share their secret");
    }
    // nor are the secrets near each other
    let ps = [&a, &b, &t.0, &t.1].map(|s| s.g1_points()[1]);
    for i in 0..4 {
        for j in 0..i {
            ensure!(!near(ps[i], ps[j]), "the secrets of two strings are near each other");
        }
    }
    cx.label_if(n == m, "same size twice");
    cx.nt(true);
    Ok(())
}

/// Do the logarithms differ by little, or are they small multiples of each other, up to sign?
pub fn near(p: G1Affine, q: G1Affine) -> bool {
    let (g, p, q) = (G1Projective::from(G1Affine::generator()), G1Projective::from(p), G1Projective::from(q));
    if p == q || p == -q {
        return true;
    }
    [p - q, p + q].into_iter().any(|d| {
        let mut x = G1Projective::zero();
        (0..8).any(|_| {
            x += g;
            d == x || d == -x
        })
    }) || [(p, q), (q, p)].into_iter().any(|(p, q)| {
        let mut x = q;
        (0..8).any(|_| {
            x += q;
            p == x || p == -x
        })
    })
}

fn k01_guess(c: &FreshCase, cx: &mut Cx) -> R {
    let s = Srs::new(c.n as usize);
    ensure!(!small_dlog(s.g1_points()[1]), "the secret is one of the 2^31 smallest values");
    // and no simple function of the size
    let n = Fr::from(c.n as u64);
    for (k, v) in [n, n + Fr::one(), n.square(), -n, n.inverse().unwrap_or(n)].iter().enumerate() {
        ensure!(s.g1_points()[1] != g1(*v), "the secret is function {k} of the size");
    }
    cx.nt(true);
    Ok(())
}

fn k01_processes(c: &FreshCase, cx: &mut Cx) -> R {
    let mut all = HashSet::new();
    for _ in 0..3 {
        let e = emitted("srs");
        ensure!(e.len() == 2, "a fresh process gave no reference string");
        for p in e {
            ensure!(all.insert(p.clone()), "two processes make the same reference string");
        }
    }
    let _ = c;
    cx.nt(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EntropyCase {
    n: u8,
    seed: u64,
    bit: u8,
}

/// A fresh string as a function of the operating system's entropy.
fn k01_entropy(c: &EntropyCase, cx: &mut Cx) -> R {
    let n = c.n as usize;
    let make = |seed, flip| crate::entropy::with(seed, flip, move || Srs::new(n));
    let (Some(a), used) = make(c.seed, None) else { return Err("Srs::new panics".into()) };
    let (Some(b), _) = make(c.seed, None) else { return Err("Srs::new panics".into()) };
    if used == 0 || a != b {
        // it draws on something else too
        return cx.skip();
    }
    ensure!(used >= 16, "a fresh string is a function of {used} bytes of entropy");
    let (Some(o), _) = make(c.seed ^ 1, None) else { return Err("Srs::new panics".into()) };
    ensure!(o.g1_points()[1] != a.g1_points()[1], "two strings of different entropy share their secret");
    let bit = c.bit as usize % 128;
    // (a generator that rejects values may ignore a bit for some seeds)
    let matters = (0..8u64).any(|k| {
        let seed = c.seed.wrapping_add(k);
        make(seed, None).0.map(|s| s.g1_points()[1]) != make(seed, Some(bit)).0.map(|s| s.g1_points()[1])
    });
    ensure!(matters, "a fresh string's secret does not depend on bit {bit} of the {used} bytes of entropy it draws");
    cx.label("a function of the entropy");
    cx.nt(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LotsCase {
    n: u8,
    /// thousands of strings
    k: u8,
}

/// So many strings that secrets from few bits repeat.
fn k01_lots(c: &LotsCase, cx: &mut Cx) -> R {
    let n = c.n as usize;
    let per = 125 * c.k as usize;
    let mut all: Vec<G1Affine> = std::thread::scope(|t| {
        let l: Vec<_> = (0..8).map(|_| t.spawn(move || (0..per).map(|_| Srs::new(n).g1_points()[1]).collect::<Vec<_>>())).collect();
        l.into_iter().flat_map(|x| x.join().unwrap_or_default()).collect()
    });
    ensure!(all.len() == 8 * per, "Srs::new panics");
    all.sort_unstable_by_key(|p| p.x);
    let same = all.windows(2).any(|w| w[0] == w[1]);
    ensure!(!same, "two of {} fresh strings have the same secret", 8 * per);
    cx.nt(true);
    Ok(())
}

fn size() -> BoxedStrategy<u16> {
    prop_oneof![8 => 0u16..20, 3 => 20u16..80, 1 => 80u16..400].boxed()
}

fn k01() -> Check {
    let fresh = || (0u16..12, 0u16..12, any::<u64>(), any::<bool>()).prop_map(|(n, m, seed, same)| FreshCase { n, m: if same { n } else { m }, seed }).boxed();
    Check {
        id: "K01",
        assumptions: vec!["group arithmetic and pairing of ark-bls12-381", "freshness is judged by distinctness, by excluding 2^31 small secrets and by dependence on every bit of 128 bits of system entropy, not by predicting the generator"],
        subs: vec![
            Box::new(Sub {
                name: "given-secret",
                rule: "a size and a secret (random, small, -small, power of two, root of unity, 0, 1, -1); every case is non-trivial.",
                quick: 600,
                thorough: 12000,
                examples: vec![
                    SrsCase { n: 0, s: Fe::Z, other: Fe::One },
                    SrsCase { n: 4, s: Fe::S(2), other: Fe::M1 },
                    SrsCase { n: 1024, s: Fe::R(5), other: Fe::R(6) },
                ]
                .into_iter()
                .chain([29u16, 61, 125, 126, 253, 254, 255, 256, 257, 500, 509, 1000, 1021, 2046, 4100].map(|n| SrsCase { n, s: Fe::R(n as u64), other: Fe::R(6) }))
                .collect(),
                strat: || (size(), fe(), fe()).prop_map(|(n, s, other)| SrsCase { n, s, other }).boxed(),
                run: k01_secret,
            }),
            Box::new(Sub {
                name: "fresh",
                rule: "four strings made without a secret in two threads; they must be geometric (pairing), non-degenerate and different from every other string of the run.",
                quick: 200,
                thorough: 3000,
                examples: vec![FreshCase { n: 4, m: 4, seed: 1 }, FreshCase { n: 100, m: 300, seed: 2 }, FreshCase { n: 1030, m: 13, seed: 3 }],
                strat: fresh,
                run: k01_fresh,
            }),
            Box::new(Sub {
                name: "unguessable",
                rule: "the secret of a fresh string is looked for among 2^31 small values (baby-step giant-step) and simple functions of the size.",
                quick: 16,
                thorough: 60,
                examples: vec![],
                strat: fresh,
                run: k01_guess,
            }),
            Box::new(Sub {
                name: "entropy",
                rule: "strings made with chosen operating-system entropy: at least 16 bytes are drawn and every bit of the first 16 changes the secret; non-trivial when the string is a function of that entropy.",
                quick: 300,
                thorough: 6000,
                examples: (0..128).map(|bit| EntropyCase { n: bit % 5, seed: bit as u64, bit }).collect(),
                strat: || (0u8..12, any::<u64>(), any::<u8>()).prop_map(|(n, seed, bit)| EntropyCase { n, seed, bit }).boxed(),
                run: k01_entropy,
            }),
            Box::new(Sub {
                name: "lots",
                rule: "the secrets of 190000 strings made by eight threads are all different (1000 in a generated case), so a secret has at least some 32 bits.",
                quick: 20,
                thorough: 400,
                examples: vec![LotsCase { n: 0, k: 190 }],
                strat: || (0u8..5).prop_map(|n| LotsCase { n, k: 1 }).boxed(),
                run: k01_lots,
            }),
            Box::new(Sub {
                name: "processes",
                rule: "three new processes each make two strings; all differ.",
                quick: 2,
                thorough: 10,
                examples: vec![],
                strat: fresh,
                run: k01_processes,
            }),
        ],
    }
}

// ---------------------------------------------------------------- K02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CommitCase {
    n: u16,
    s: Fe,
    p: PolyR,
    para: Fe,
}

fn dense(c: &[Fr]) -> DensePolynomial<Fr> {
    DensePolynomial::from_coefficients_slice(c)
}

fn k02_commit(c: &CommitCase, cx: &mut Cx) -> R {
    let s: Fr = c.s.f();
    let p = c.p.coeffs::<Fr>();
    let n = c.n as usize;
    let scheme = KzgScheme::new(Srs::new_from_secret(s, n));
    let para: Fr = c.para.f();
    ensure!(scheme.commit_para(para).0 == g1(para), "commit_para is not the generator times the value");
    let t = trim(p.clone());
    let (com, vec) = (catch(|| scheme.commit(&dense(&p))), catch(|| scheme.commit_vector(&p)));
    if t.len() > n + 3 {
        ensure!(com.is_err(), "commit accepts {} coefficients with {} powers", t.len(), n + 3);
        ensure!(vec.is_err(), "commit_vector accepts {} coefficients with {} powers", t.len(), n + 3);
        cx.label("too long");
        cx.nt(true);
        return Ok(());
    }
    let com = com.map_err(|e| format!("commit panicked: {e}"))?;
    let vec = vec.map_err(|e| format!("commit_vector panicked: {e}"))?;
    let exp = g1(horner(&p, s));
    ensure!(com.0 == exp, "commit is not the evaluation at the secret");
    ensure!(vec.0 == exp, "commit_vector is not the evaluation at the secret");
    ensure!(*com.inner() == exp, "inner() is not the commitment");
    if t.len() <= 1 {
        ensure!(scheme.commit_para(t.first().copied().unwrap_or_default()) == com, "commit_para disagrees with commit on a constant");
    }
    cx.label(match t.len() {
        0 => "zero polynomial",
        1 => "constant",
        l if l == n + 3 => "as long as the string",
        _ => "longer",
    });
    cx.label_if(p.len() != t.len(), "trailing zeros");
    cx.label_if(p.len() > n + 3, "zeros beyond the string");
    cx.nt(t.len() > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ex {
    Scalar(Fe),
    Poly(PolyR),
    Add(Box<Ex>, Box<Ex>),
    Sub(Box<Ex>, Box<Ex>),
    Neg(Box<Ex>),
    Mul(Box<Ex>, Fe),
    MulRef(Box<Ex>, Fe),
    Agg(Vec<Ex>, Fe),
    /// aggregate of a list that takes its entries from the given ones, negated for the upper half of the index
    AggRep(Vec<Ex>, Vec<u8>, Fe),
    /// e + e, e - e
    Dup(Box<Ex>, bool),
}

impl Ex {
    fn run(&self, k: &KzgScheme, s: Fr, size: &mut usize) -> (KzgCommitment, Fr) {
        *size += 1;
        match self {
            Ex::Scalar(v) => (k.commit_para(v.f()), v.f()),
            Ex::Poly(p) => {
                let p = p.coeffs::<Fr>();
                (k.commit_vector(&p), horner(&p, s))
            }
            Ex::Add(a, b) => {
                let (a, b) = (a.run(k, s, size), b.run(k, s, size));
                (a.0 + b.0, a.1 + b.1)
            }
            Ex::Sub(a, b) => {
                let (a, b) = (a.run(k, s, size), b.run(k, s, size));
                (a.0 - b.0, a.1 - b.1)
            }
            Ex::Neg(a) => {
                let a = a.run(k, s, size);
                (-a.0, -a.1)
            }
            Ex::Mul(a, x) => {
                let a = a.run(k, s, size);
                (a.0 * x.f::<Fr>(), a.1 * x.f::<Fr>())
            }
            Ex::MulRef(a, x) => {
                let a = a.run(k, s, size);
                (&a.0 * x.f::<Fr>(), a.1 * x.f::<Fr>())
            }
            Ex::Agg(v, x) => {
                let v: Vec<_> = v.iter().map(|e| e.run(k, s, size)).collect();
                let x: Fr = x.f();
                let vals: Vec<Fr> = v.iter().map(|e| e.1).collect();
                (KzgScheme::aggregate_commitments(&v.iter().map(|e| &e.0).collect(), &x), horner(&vals, x))
            }
            Ex::AggRep(v, idx, x) => {
                let v: Vec<_> = v.iter().map(|e| e.run(k, s, size)).collect();
                let x: Fr = x.f();
                let list: Vec<(KzgCommitment, Fr)> = idx
                    .iter()
                    .map(|i| {
                        let (c, l) = &v[*i as usize % v.len()];
                        if *i < 128 {
                            (c.clone(), *l)
                        } else {
                            (-c.clone(), -*l)
                        }
                    })
                    .collect();
                let vals: Vec<Fr> = list.iter().map(|e| e.1).collect();
                (KzgScheme::aggregate_commitments(&list.iter().map(|e| &e.0).collect(), &x), horner(&vals, x))
            }
            Ex::Dup(a, plus) => {
                let a = a.run(k, s, size);
                if *plus {
                    (a.0.clone() + a.0, a.1 + a.1)
                } else {
                    (a.0.clone() - a.0, Fr::zero())
                }
            }
        }
    }
}

fn ex() -> BoxedStrategy<Ex> {
    let leaf = prop_oneof![2 => fe().prop_map(Ex::Scalar), 3 => poly(7).prop_map(Ex::Poly)];
    leaf.prop_recursive(4, 20, 4, |e| {
        prop_oneof![
            2 => (e.clone(), e.clone()).prop_map(|(a, b)| Ex::Add(a.into(), b.into())),
            2 => (e.clone(), e.clone()).prop_map(|(a, b)| Ex::Sub(a.into(), b.into())),
            1 => e.clone().prop_map(|a| Ex::Neg(a.into())),
            1 => (e.clone(), fe()).prop_map(|(a, x)| Ex::Mul(a.into(), x)),
            1 => (e.clone(), fe()).prop_map(|(a, x)| Ex::MulRef(a.into(), x)),
            2 => (prop::collection::vec(e.clone(), 0..5), fe()).prop_map(|(v, x)| Ex::Agg(v, x)),
            2 => (prop::collection::vec(e.clone(), 1..4), prop::collection::vec(any::<u8>(), 0..9), fe()).prop_map(|(v, i, x)| Ex::AggRep(v, i, x)),
            1 => (e, any::<bool>()).prop_map(|(a, p)| Ex::Dup(a.into(), p)),
        ]
    })
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinCase {
    s: Fe,
    e: Ex,
}

fn k02_linear(c: &LinCase, cx: &mut Cx) -> R {
    let s: Fr = c.s.f();
    let scheme = KzgScheme::new(Srs::new_from_secret(s, 7));
    let mut size = 0;
    let (com, v) = c.e.run(&scheme, s, &mut size);
    ensure!(com.0 == g1(v), "the combination is not the commitment of the combined polynomial");
    cx.label_if(v.is_zero(), "identity");
    cx.label(match size {
        1 => "leaf",
        2..=5 => "2-5 operations",
        _ => "6+ operations",
    });
    cx.nt(size > 1);
    Ok(())
}

fn k02() -> Check {
    Check {
        id: "K02",
        assumptions: vec!["scalar multiplication of ark-bls12-381", "a panic is the scheme's refusal"],
        subs: vec![
            Box::new(Sub {
                name: "commit",
                rule: "a secret, a string size and a polynomial shorter, exactly as long or longer than the string, with and without trailing zeros; non-trivial with at least two coefficients.",
                quick: 2500,
                thorough: 60000,
                examples: vec![
                    CommitCase { n: 0, s: Fe::R(1), p: PolyR::Rand(3, 1), para: Fe::Z },
                    CommitCase { n: 0, s: Fe::R(1), p: PolyR::Rand(4, 1), para: Fe::M1 },
                    CommitCase { n: 2, s: Fe::R(1), p: PolyR::Trail(vec![Fe::One; 5], 4), para: Fe::M1 },
                    CommitCase { n: 500, s: Fe::R(1), p: PolyR::Rand(503, 1), para: Fe::R(7) },
                    CommitCase { n: 500, s: Fe::R(1), p: PolyR::Rand(504, 1), para: Fe::R(7) },
                    CommitCase { n: 500, s: Fe::R(2), p: PolyR::Sparse(vec![(256, Fe::One), (300, Fe::M1), (502, Fe::S(3))]), para: Fe::R(7) },
                    CommitCase { n: 1100, s: Fe::R(2), p: PolyR::Trail(vec![Fe::R(1); 1050], 60), para: Fe::R(7) },
                    CommitCase { n: 3000, s: Fe::R(2), p: PolyR::Rand(3003, 2), para: Fe::R(7) },
                ]
                .into_iter()
                .chain([31u16, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025, 2049].into_iter().flat_map(|l| {
                    [l - 3, l - 2, l + 40].map(|n| CommitCase { n, s: Fe::R(l as u64), p: PolyR::Rand(l, n as u64), para: Fe::R(7) })
                }))
                .chain([64u16, 256, 1024].map(|l| CommitCase { n: l - 4, s: Fe::R(l as u64), p: PolyR::Rand(l, 9), para: Fe::R(7) }))
                .collect(),
                strat: || {
                    prop_oneof![
                        6 => (0u16..14).prop_flat_map(|n| (Just(n), secret(), poly(n as usize + 3), fe())),
                        2 => (0u16..10).prop_flat_map(|n| (Just(n), secret(), poly(n as usize + 8), fe())),
                        1 => (0u16..10, 1u16..6).prop_flat_map(|(n, k)| (Just(n), secret(), any::<u64>().prop_map(move |s| PolyR::Rand(n + 3 + k, s)), fe())),
                        1 => (14u16..80).prop_flat_map(|n| (Just(n), secret(), any::<u64>().prop_map(move |s| PolyR::Rand(n + 3, s)), fe())),
                    ]
                    .prop_map(|(n, s, p, para)| CommitCase { n, s, p, para })
                    .boxed()
                },
                run: k02_commit,
            }),
            Box::new(Sub {
                name: "linear",
                rule: "an expression of +, -, unary -, scalar products and aggregates (also of lists with repeated and negated entries) over commitments of known logarithm, against the same expression in the field; non-trivial with at least one operation.",
                quick: 2500,
                thorough: 60000,
                examples: [0usize, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300]
                    .into_iter()
                    .map(|n| LinCase { s: Fe::R(3), e: Ex::Agg((0..n as u64).map(|i| Ex::Scalar(Fe::R(i))).collect(), Fe::R(1)) })
                    .chain([(40usize, Fe::One), (40, Fe::M1), (70, Fe::Z), (300, Fe::R(8))].map(|(n, x)| LinCase {
                        s: Fe::R(4),
                        e: Ex::AggRep(vec![Ex::Poly(PolyR::Rand(7, 1)), Ex::Scalar(Fe::Z), Ex::Poly(PolyR::Rand(5, 2))], (0..n).map(|i| (i * 37) as u8).collect(), x),
                    }))
                    .collect(),
                strat: || (secret(), ex()).prop_map(|(s, e)| LinCase { s, e }).boxed(),
                run: k02_linear,
            }),
        ],
    }
}

// ---------------------------------------------------------------- K03

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PointR {
    Fe(Fe),
    Secret,
    Root(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpenCase {
    n: u16,
    s: Fe,
    p: PolyR,
    q: PolyR,
    z: PointR,
}

fn point(c: &OpenCase, s: Fr) -> Fr {
    match (&c.z, &c.p) {
        (PointR::Fe(f), _) => f.f(),
        (PointR::Secret, _) => s,
        (PointR::Root(i), PolyR::Roots(r, _)) if !r.is_empty() => r[*i as usize % r.len()].f(),
        (PointR::Root(i), _) => Fr::from(*i),
    }
}

fn k03_open(c: &OpenCase, cx: &mut Cx) -> R {
    let s: Fr = c.s.f();
    let z = point(c, s);
    let scheme = KzgScheme::new(Srs::new_from_secret(s, c.n as usize));
    let mut open = vec![];
    for p in [&c.p, &c.q] {
        let p = p.coeffs::<Fr>();
        let y = horner(&p, z);
        let com = scheme.commit(&dense(&p));
        let o1 = scheme.open(&dense(&p), z);
        let o2 = scheme.open_vector(&p, z);
        for (name, o) in [("open", &o1), ("open_vector", &o2)] {
            ensure!(o.1 == y && o.clone().eval() == y, "{name} reports a wrong value");
            ensure!(scheme.verify(&com, o, z), "{name}'s opening does not verify");
            if s != z {
                let w = (horner(&p, s) - y) / (s - z);
                ensure!(o.0 == g1(w), "{name}'s witness is not the quotient's commitment");
            }
        }
        ensure!(o1.0 == o2.0, "open and open_vector disagree");
        let l = trim(p.clone()).len();
        cx.label(match l {
            0 => "zero polynomial",
            1 => "constant",
            _ if l == c.n as usize + 3 => "full degree",
            _ => "inner degree",
        });
        cx.label_if(y.is_zero(), "value 0");
        cx.nt(l > 1);
        open.push((p, com, o1));
    }
    let (b, a) = (open.pop().unwrap(), open.pop().unwrap());
    let sum = a.2 + b.2;
    let com = a.1 + b.1;
    let y = horner(&a.0, z) + horner(&b.0, z);
    ensure!(sum.1 == y, "the sum of openings has a wrong value");
    ensure!(scheme.verify(&com, &sum, z), "the sum of openings does not open the sum of commitments");
    if s != z {
        ensure!(sum.0 == g1((horner(&a.0, s) + horner(&b.0, s) - y) / (s - z)), "the sum of openings has a wrong witness");
    }
    cx.label_if(s == z, "opened at the secret");
    Ok(())
}

fn k03() -> Check {
    let c = |p: PolyR, q: PolyR, z: PointR| OpenCase { n: 4, s: Fe::R(1), p, q, z };
    Check {
        id: "K03",
        assumptions: vec!["group arithmetic and pairing of ark-bls12-381"],
        subs: vec![Box::new(Sub {
            name: "open",
            rule: "two polynomials that fit the string and a point (random, small, 0, a root of the polynomial, a root of unity, the secret); both entry points, the value, the witness, verification, and the sum of the two openings; non-trivial when a polynomial is not constant.",
            quick: 1500,
            thorough: 40000,
            examples: vec![
                c(PolyR::Dense(vec![]), PolyR::Dense(vec![Fe::S(5)]), PointR::Fe(Fe::S(3))),
                c(PolyR::Dense(vec![Fe::S(7), Fe::One]), PolyR::Dense(vec![Fe::Z, Fe::M1]), PointR::Secret),
                c(PolyR::Roots(vec![Fe::S(3), Fe::S(4)], Fe::One), PolyR::Rand(7, 5), PointR::Root(0)),
                OpenCase { n: 300, s: Fe::R(9), p: PolyR::Rand(303, 2), q: PolyR::Rand(150, 3), z: PointR::Fe(Fe::R(4)) },
                OpenCase { n: 2100, s: Fe::R(9), p: PolyR::Rand(2103, 2), q: PolyR::Rand(1, 3), z: PointR::Fe(Fe::M1) },
            ]
            .into_iter()
            .chain([32u16, 64, 65, 128, 129, 256, 257, 258, 512, 513, 1024, 1025].map(|l| OpenCase {
                n: l - 2,
                s: Fe::R(9),
                p: PolyR::Rand(l, 2),
                q: PolyR::Rand(l - 1, 3),
                z: PointR::Fe(if l % 2 == 0 { Fe::R(l as u64) } else { Fe::Z }),
            }))
            .collect(),
            strat: || {
                let z = prop_oneof![6 => fe().prop_map(PointR::Fe), 1 => Just(PointR::Secret), 3 => any::<u8>().prop_map(PointR::Root)];
                let n = prop_oneof![12 => 0u16..14, 1 => 14u16..70];
                (n, z)
                    .prop_flat_map(|(n, z)| (Just(n), secret(), poly(n as usize + 3), poly(n as usize + 3), Just(z)))
                    .prop_map(|(n, s, p, q, z)| OpenCase { n, s, p, q, z })
                    .boxed()
            },
            run: k03_open,
        })],
    }
}

// ---------------------------------------------------------------- K04

/// An opening claim by logarithms: commitment, witness, value, point.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Claim {
    w: Fe,
    y: Fe,
    z: Fe,
    edit: Edit,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    None,
    C(Fe),
    W(Fe),
    Y(Fe),
    Z(Fe),
    /// shift commitment and value together (stays valid)
    Cy(Fe),
    /// shift the witness and compensate in the commitment (stays valid)
    Wc(Fe),
    NegC,
    NegW,
    NegY,
    NegZ,
    /// commitment replaced
    SetC(Fe),
    ZeroW,
    /// value and point exchanged
    SwapYz,
    /// the commitment is the point at infinity
    ZeroC,
    /// value left out: as if it were zero
    ZeroY,
}

impl Claim {
    /// (c, w, y, z), and whether the claim is true
    pub fn get(&self, s: Fr) -> (Fr, Fr, Fr, Fr, bool) {
        let (mut w, mut y, mut z): (Fr, Fr, Fr) = (self.w.f(), self.y.f(), self.z.f());
        let mut c = w * (s - z) + y;
        match &self.edit {
            Edit::None => {}
            Edit::C(d) => c += d.f::<Fr>(),
            Edit::W(d) => w += d.f::<Fr>(),
            Edit::Y(d) => y += d.f::<Fr>(),
            Edit::Z(d) => z += d.f::<Fr>(),
            Edit::Cy(d) => {
                c += d.f::<Fr>();
                y += d.f::<Fr>();
            }
            Edit::Wc(d) => {
                w += d.f::<Fr>();
                c += d.f::<Fr>() * (s - z);
            }
            Edit::NegC => c = -c,
            Edit::NegW => w = -w,
            Edit::NegY => y = -y,
            Edit::NegZ => z = -z,
            Edit::SetC(d) => c = d.f(),
            Edit::ZeroW => w = Fr::zero(),
            Edit::SwapYz => std::mem::swap(&mut y, &mut z),
            Edit::ZeroC => c = Fr::zero(),
            Edit::ZeroY => y = Fr::zero(),
        }
        (c, w, y, z, w * (s - z) == c - y)
    }
}

fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        4 => Just(Edit::None),
        2 => fe_nz().prop_map(Edit::C),
        2 => fe_nz().prop_map(Edit::W),
        2 => fe_nz().prop_map(Edit::Y),
        2 => fe_nz().prop_map(Edit::Z),
        1 => fe_nz().prop_map(Edit::Cy),
        1 => fe_nz().prop_map(Edit::Wc),
        1 => prop_oneof![Just(Edit::NegC), Just(Edit::NegW), Just(Edit::NegY), Just(Edit::NegZ)],
        1 => fe().prop_map(Edit::SetC),
        1 => Just(Edit::ZeroW),
        1 => Just(Edit::ZeroC),
        1 => Just(Edit::ZeroY),
        1 => Just(Edit::SwapYz),
    ]
    .boxed()
}

pub fn claim() -> BoxedStrategy<Claim> {
    (fe(), fe(), fe(), edit()).prop_map(|(w, y, z, edit)| Claim { w, y, z, edit }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VerifyCase {
    s: Fe,
    n: u8,
    claim: Claim,
}

fn k04_verify(c: &VerifyCase, cx: &mut Cx) -> R {
    let s: Fr = c.s.f();
    let scheme = KzgScheme::new(Srs::new_from_secret(s, c.n as usize % 4));
    let (cm, w, y, z, valid) = c.claim.get(s);
    let got = scheme.verify(&KzgCommitment(g1(cm)), &KzgOpening(g1(w), y), z);
    ensure!(got == valid, "verify says {got}, the opening is {}", if valid { "valid" } else { "invalid" });
    cx.label(if valid { "valid" } else { "invalid" });
    cx.label_if(w.is_zero() || cm.is_zero(), "identity point");
    cx.nt(!w.is_zero() || !cm.is_zero());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CrossCase {
    s: Fe,
    p: PolyR,
    q: PolyR,
    z: Fe,
    z2: Fe,
    s2: Fe,
}

/// Openings of real polynomials used where they do not belong.
fn k04_cross(c: &CrossCase, cx: &mut Cx) -> R {
    let (s, z, z2): (Fr, Fr, Fr) = (c.s.f(), c.z.f(), c.z2.f());
    let scheme = KzgScheme::new(Srs::new_from_secret(s, 5));
    let (p, q) = (c.p.coeffs::<Fr>(), c.q.coeffs::<Fr>());
    let (cp, cq) = (scheme.commit_vector(&p), scheme.commit_vector(&q));
    let o = scheme.open_vector(&p, z);
    let oq = scheme.open_vector(&q, z);
    let (ps, qs, y, yq) = (horner(&p, s), horner(&q, s), horner(&p, z), horner(&q, z));
    let ok = |c: Fr, w: Fr, y: Fr, z: Fr| w * (s - z) == c - y;
    // logarithm of an honest witness (derivative where the point is the secret)
    let wit = |ps: Fr, y: Fr, p: &[Fr]| {
        if s == z {
            horner(&p.iter().enumerate().skip(1).map(|(i, c)| *c * Fr::from(i as u64)).collect::<Vec<_>>(), s)
        } else {
            (ps - y) / (s - z)
        }
    };
    let (w, wq) = (wit(ps, y, &p), wit(qs, yq, &q));
    let mut bad = 0;
    let tests = [
        ("its own commitment", scheme.verify(&cp, &o, z), ok(ps, w, y, z)),
        ("another commitment", scheme.verify(&cq, &o, z), ok(qs, w, y, z)),
        ("another point", scheme.verify(&cp, &o, z2), ok(ps, w, y, z2)),
        ("another value", scheme.verify(&cp, &KzgOpening(o.0, oq.1), z), ok(ps, w, yq, z)),
        ("another witness", scheme.verify(&cp, &KzgOpening(oq.0, o.1), z), ok(ps, wq, y, z)),
    ];
    for (name, got, valid) in tests {
        ensure!(got == valid, "with {name} verify says {got}, the opening is {}", if valid { "valid" } else { "invalid" });
        bad += usize::from(!valid);
    }
    // another reference string: the verifier uses its own secret
    let s2: Fr = c.s2.f();
    let valid = w * (s2 - z) == ps - y;
    let got = KzgScheme::new(Srs::new_from_secret(s2, 5)).verify(&cp, &o, z);
    ensure!(got == valid, "under another string verify says {got}");
    cx.nt(bad > 0);
    cx.label(format!("{bad} of 4 misuses invalid"));
    Ok(())
}

fn k04() -> Check {
    Check {
        id: "K04",
        assumptions: vec!["group arithmetic and pairing of ark-bls12-381", "points outside the prime-order subgroup are not generated (the type's constructor that allows them is unchecked)"],
        subs: vec![
            Box::new(Sub {
                name: "exact",
                rule: "a claim given by logarithms, valid and then edited in one or two of commitment, witness, value and point; the oracle is the equation in the field; non-trivial unless both points are the identity.",
                quick: 4000,
                thorough: 150000,
                examples: vec![],
                strat: || (secret(), any::<u8>(), claim()).prop_map(|(s, n, claim)| VerifyCase { s, n, claim }).boxed(),
                run: k04_verify,
            }),
            Box::new(Sub {
                name: "cross",
                rule: "honest openings of real polynomials used with another commitment, point, value, witness or reference string; non-trivial when at least one misuse is really invalid.",
                quick: 600,
                thorough: 20000,
                examples: vec![],
                strat: || {
                    (secret(), poly(8), poly(8), fe(), fe(), secret())
                        .prop_map(|(s, p, q, z, z2, s2)| CrossCase { s, p, q, z, z2, s2 })
                        .boxed()
                },
                run: k04_cross,
            }),
        ],
    }
}

// ---------------------------------------------------------------- K05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BatchCase {
    s: Fe,
    claims: Vec<Claim>,
    /// additional errors on pairs of entries that cancel: (i, j, field, error, factor)
    cancel: Vec<(u8, u8, u8, Fe, i8)>,
    /// errors on three or more entries that cancel when the weights follow a rule: (kind, start, distance, field, error)
    #[serde(default)]
    relate: Vec<(u8, u16, u8, u8, Fe)>,
    /// repeat entry i at the end
    dup: Option<u8>,
    seed: u64,
    /// cut one of the lists
    cut: Option<u8>,
}

struct CountRng(StdRng, usize);
impl RngCore for CountRng {
    fn next_u32(&mut self) -> u32 {
        self.1 += 4;
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 8;
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += d.len();
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Factors of some of n entries that cancel whenever the entries' weights follow a rule, although each weight may be random.
fn relation(kind: u8, n: usize, start: usize, dist: usize) -> Vec<(usize, Fr)> {
    let int = |k: i64| if k < 0 { -Fr::from(k.unsigned_abs()) } else { Fr::from(k as u64) };
    let list = |l: &[(usize, i64)]| l.iter().map(|(i, k)| (*i, int(*k))).collect::<Vec<_>>();
    if n < 3 {
        return vec![];
    }
    // three places at a distance
    let d = 1 + dist % ((n - 1) / 2).max(1);
    let i = start % (n - 2 * d).max(1);
    if n >= 4 {
        // four places
        let e = 1 + dist % ((n - 1) / 3).max(1);
        let j = start % (n - 3 * e).max(1);
        let m = 1 + dist % (n - 2);
        let b = start % (n - 1 - m).max(1);
        match kind % 10 {
            // a quadratic function of the place
            3 => return list(&[(j, 1), (j + e, -3), (j + 2 * e, 3), (j + 3 * e, -1)]),
            // sums of row and column weights
            4 if b + m + 1 < n => return list(&[(b, 1), (b + 1, -1), (b + m, -1), (b + m + 1, 1)]),
            // sums of the bits of the place
            5 => return list(&[(0, 1), (1, -1), (2, -1), (3, 1)]),
            // the last is the sum of the others
            6 => return (0..n).map(|t| (t, if t == n - 1 { -Fr::one() } else { Fr::one() })).collect(),
            // ... or minus it: the weights sum to nothing
            7 => return (0..n).map(|t| (t, Fr::one())).collect(),
            // weights that depend on the place only
            8 => return list(&[(i, (i + d + 1) as i64), (i + d, -(i as i64 + 1))]),
            // ... as the squares of the places
            9 => return list(&[(i, ((i + d + 1) * (i + d + 1)) as i64), (i + d, -(((i + 1) * (i + 1)) as i64))]),
            _ => {}
        }
    }
    match kind % 3 {
        // an affine function of the place
        0 => list(&[(i, 1), (i + d, -2), (i + 2 * d, 1)]),
        // each is the sum of the two before
        1 => list(&[(i, 1), (i + d, 1), (i + 2 * d, -1)]),
        // ... or the difference
        _ => list(&[(i, 1), (i + d, -1), (i + 2 * d, 1)]),
    }
}

fn k05_batch(c: &BatchCase, cx: &mut Cx) -> R {
    let s: Fr = c.s.f();
    let scheme = KzgScheme::new(Srs::new_from_secret(s, 2));
    let mut v: Vec<(Fr, Fr, Fr, Fr)> = c.claims.iter().map(|x| x.get(s)).map(|x| (x.0, x.1, x.2, x.3)).collect();
    if let (Some(d), false) = (c.dup, v.is_empty()) {
        v.push(v[d as usize % v.len()]);
    }
    let n = v.len();
    if n >= 2 {
        for (i, j, field, e, k) in &c.cancel {
            let (i, j) = (*i as usize % n, *j as usize % n);
            if i == j {
                continue;
            }
            let e: Fr = e.f();
            let k = if *k < 0 { -Fr::from(k.unsigned_abs()) } else { Fr::from(*k as u8) };
            for (t, e) in [(i, e), (j, -(k * e))] {
                match field % 3 {
                    0 => v[t].0 += e,
                    1 => v[t].2 += e,
                    _ => v[t].1 += e,
                }
            }
        }
    }
    for (kind, start, dist, field, e) in &c.relate {
        for (t, k) in relation(*kind, n, *start as usize, *dist as usize) {
            let e = e.f::<Fr>() * k;
            match field % 3 {
                0 => v[t].0 += e,
                1 => v[t].2 += e,
                _ => v[t].1 += e,
            }
        }
        cx.label("errors that cancel when weights follow a rule");
    }
    let valid: Vec<bool> = v.iter().map(|(c, w, y, z)| *w * (s - z) == *c - y).collect();
    let all = valid.iter().all(|x| *x);
    let coms: Vec<_> = v.iter().map(|x| KzgCommitment(g1(x.0))).collect();
    let opens: Vec<_> = v.iter().map(|x| KzgOpening(g1(x.1), x.2)).collect();
    let points: Vec<Fr> = v.iter().map(|x| x.3).collect();
    let mut rng = CountRng(StdRng::seed_from_u64(c.seed), 0);
    if let (Some(cut), true) = (c.cut, n > 0) {
        let l = |k: u8| if cut % 6 == k { n - 1 } else if cut % 6 == k + 3 && n > 1 { 0 } else { n };
        if [l(0), l(1), l(2)] != [n, n, n] {
            let r = catch(|| scheme.batch_verify(&coms[..l(0)], &points[..l(1)], &opens[..l(2)], &mut rng));
            ensure!(r != Ok(true), "lists of {}, {} and {} entries are accepted", l(0), l(1), l(2));
            ensure!(r.is_err(), "lists of {}, {} and {} entries are not refused", l(0), l(1), l(2));
            cx.label("different lengths");
            cx.nt(true);
            return Ok(());
        }
    }
    let got = scheme.batch_verify(&coms, &points, &opens, &mut rng);
    ensure!(got == all, "batch_verify says {got}; valid entries: {valid:?}");
    // entries that verify alone are exactly the valid ones, so the batch agrees with single verification
    if n <= 3 {
        for i in 0..n {
            ensure!(scheme.verify(&coms[i], &opens[i], points[i]) == valid[i], "entry {i}: verify disagrees");
        }
    }
    let weighed = all && v.iter().filter(|x| !x.1.is_zero()).count() >= 2;
    ensure!(!weighed || rng.1 >= 8, "a batch of {n} draws only {} random bytes", rng.1);
    let bad = valid.iter().filter(|x| !**x).count();
    cx.label(match n {
        0 => "empty",
        1 => "single",
        2..=4 => "2-4 entries",
        _ => "5+ entries",
    });
    cx.label(match bad {
        0 => "all valid",
        1 => "one invalid",
        _ => "several invalid",
    });
    let sum: Fr = v.iter().map(|(c, w, y, z)| *w * (s - z) - *c + y).sum();
    cx.label_if(bad > 0 && sum.is_zero(), "errors cancel in the plain sum");
    cx.nt(n >= 2);
    Ok(())
}

fn valid_claim() -> BoxedStrategy<Claim> {
    (fe(), fe(), fe()).prop_map(|(w, y, z)| Claim { w, y, z, edit: Edit::None }).boxed()
}

fn k05() -> Check {
    let honest = |n: u64| -> Vec<Claim> { (0..n).map(|i| Claim { w: Fe::R(i), y: Fe::R(i + 50), z: Fe::R(i + 90), edit: Edit::None }).collect() };
    Check {
        id: "K05",
        assumptions: vec!["group arithmetic and pairing of ark-bls12-381", "the caller's random generator is unpredictable to whoever made the entries", "weights of 32 bits or more are taken as sufficient: weaker ones are met by chance of 2^-bits per cancelling case"],
        subs: vec![
            Box::new(Sub {
                name: "batch",
                rule: "a list of claims by logarithms, none, one or several edited, plus errors on pairs of entries that cancel with small integer factors, duplicates, and cut lists; the oracle is the equation of each entry; non-trivial with at least two entries.",
                quick: 1800,
                thorough: 60000,
                examples: vec![
                    BatchCase { s: Fe::R(1), claims: vec![], cancel: vec![], dup: None, relate: vec![], seed: 1, cut: None },
                    BatchCase { s: Fe::R(1), claims: honest(2), cancel: vec![(0, 1, 0, Fe::R(3), 1)], dup: None, relate: vec![], seed: 1, cut: None },
                    BatchCase { s: Fe::R(1), claims: honest(2), cancel: vec![(0, 1, 1, Fe::R(3), 1)], dup: None, relate: vec![], seed: 1, cut: None },
                    BatchCase { s: Fe::R(1), claims: honest(12), cancel: vec![], dup: Some(3), relate: vec![], seed: 1, cut: None },
                    BatchCase { s: Fe::R(1), claims: honest(3), cancel: vec![], dup: None, relate: vec![], seed: 1, cut: Some(0) },
                ]
                .into_iter()
                .chain([15u64, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300].into_iter().flat_map(|n| {
                    let base = BatchCase { s: Fe::R(n), claims: honest(n), cancel: vec![], dup: None, relate: vec![], seed: n, cut: None };
                    let mut v = vec![base.clone(), BatchCase { cut: Some(1), ..base.clone() }];
                    // one invalid entry, and two whose errors cancel, at several distances
                    for at in [0, n / 2, n - 2, n - 1] {
                        let mut b = base.clone();
                        b.claims[at as usize].edit = Edit::Y(Fe::R(3));
                        v.push(b);
                    }
                    for d in [1, 2, 3, 4, 8, 16, 32, 64, 128, n - 1] {
                        if d < n && d < 256 {
                            v.push(BatchCase { cancel: vec![(0, d as u8, 0, Fe::R(3), 1)], ..base.clone() });
                            v.push(BatchCase { cancel: vec![((n - 1 - d).min(255 - d) as u8, (n - 1).min(255) as u8, 1, Fe::R(3), 1)], ..base.clone() });
                        }
                    }
                    v
                }))
                .chain([520u64, 1030].into_iter().flat_map(|n| {
                    let base = BatchCase { s: Fe::R(n), claims: honest(n), cancel: vec![], dup: None, relate: vec![], seed: n, cut: None };
                    let mut v = vec![base.clone()];
                    for at in [n / 2, n - 1] {
                        let mut b = base.clone();
                        b.claims[at as usize].edit = Edit::W(Fe::R(3));
                        v.push(b);
                    }
                    v
                }))
                .chain([3u64, 4, 5, 6, 8, 9, 16, 40].into_iter().flat_map(|n| {
                    (0..10u8).flat_map(move |kind| {
                        [(0u16, 0u8), (1, 1), (2, 3)].map(|(start, dist)| BatchCase {
                            s: Fe::R(n),
                            claims: honest(n),
                            cancel: vec![],
                            dup: None,
                            relate: vec![(kind, start, dist, kind + dist, Fe::R(7))],
                            seed: n,
                            cut: None,
                        })
                    })
                }))
                .collect(),
                strat: || {
                    let some = prop::collection::vec(prop_oneof![3 => valid_claim(), 1 => claim()], 0..7);
                    let good = prop::collection::vec(valid_claim(), 0..7);
                    let cancel = prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>(), fe_nz(), prop_oneof![3 => Just(1i8), 2 => -4i8..5]), 1..3);
                    (
                        secret(),
                        prop_oneof![
                            2 => (some, Just(vec![]), Just(vec![])),
                            2 => (good.clone(), Just(vec![]), Just(vec![])),
                            3 => (good.clone(), cancel, Just(vec![])),
                            2 => (good.clone(), Just(vec![]), prop::collection::vec((any::<u8>(), any::<u16>(), any::<u8>(), any::<u8>(), fe_nz()), 1..2)),
                            // a single invalid entry, at any position
                            2 => (good, claim(), any::<prop::sample::Index>()).prop_map(|(mut g, c, i)| {
                                let i = i.index(g.len() + 1);
                                g.insert(i, c);
                                (g, vec![], vec![])
                            }),
                        ],
                        prop::option::weighted(0.2, any::<u8>()),
                        any::<u64>(),
                        prop::option::weighted(0.1, any::<u8>()),
                    )
                        .prop_map(|(s, (claims, cancel, relate), dup, seed, cut)| BatchCase { s, claims, cancel, dup, relate, seed, cut })
                        .boxed()
                },
                run: k05_batch,
            }),
        ],
    }
}
