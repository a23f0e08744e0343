//! PLONK: completeness, soundness, binding, blinding, transcript, compilation.

use std::collections::HashSet;
use std::sync::Mutex;

use ark_bls12_381::{Fr, G1Affine, G1Projective};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::{DenseUVPolynomial, EvaluationDomain, Polynomial};
use digest_10::Digest;
use kzg::commitment::KzgCommitment;
use kzg::srs::Srs;
use plonk::compiled_circuit::CompiledCircuit;
use plonk::prover::{generate_proof, Proof};
use plonk::verifier::verify;
use proptest::prelude::*;
use rand::{rngs::StdRng, SeedableRng};
use serde::{Deserialize, Serialize};
use sha2_10::{Sha224, Sha256, Sha384, Sha512};

use crate::digests::{recorded, Rec, Salted, Short};
use crate::fw::{catch, Check, Cx, Sub, R};
use crate::gen::*;
use crate::kzg_checks::emitted;
use crate::plonk_model::*;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "P01" => p01(),
        "P02" => p02(),
        "P03" => p03(),
        "P04" => p04(),
        "P05" => p05(),
        "P06" => p06(),
        "P07" => p07(),
        "V02" => v02(),
        _ => return None,
    })
}

pub const GROUPS: &str = "group, pairing, field and domain arithmetic of the ark crates";

pub fn compile(c: &Conc) -> Result<CompiledCircuit, String> {
    catch(|| c.circuit().compile()).map_err(|m| format!("compiling panics: {m}"))?.map_err(|e| format!("compiling fails: {e}"))
}
pub fn try_prove<T: Digest + Default>(cc: &CompiledCircuit, srs: &Srs) -> Result<Proof, String> {
    catch(|| generate_proof::<T>(cc, srs.clone()))
}
/// The verdict; a panic is an error of its own.
pub fn judge<T: Digest + Default>(cc: &CompiledCircuit, srs: &Srs, p: &Proof) -> Result<Result<(), String>, String> {
    catch(|| verify::<T>(cc, srs.clone(), clone_proof(p)))
}
/// A refusal, by error or panic.
pub fn refused<T: Digest + Default>(cc: &CompiledCircuit, srs: &Srs, p: &Proof) -> bool {
    !matches!(judge::<T>(cc, srs, p), Ok(Ok(())))
}

pub fn sizes() -> BoxedStrategy<CircR> {
    prop_oneof![12 => circ(1..=9), 4 => circ(8..=20), 1 => circ(21..=70)].boxed()
}
pub fn small() -> BoxedStrategy<CircR> {
    prop_oneof![10 => circ(1..=8), 1 => circ(8..=17)].boxed()
}
/// A secret that no challenge equals.
pub fn generic() -> BoxedStrategy<Fe> {
    prop_oneof![6 => any::<u64>().prop_map(Fe::R), 1 => (2u32..40).prop_map(Fe::S)].boxed()
}

pub fn label_circ(c: &Conc, cx: &mut Cx) {
    let n = c.gates.len();
    cx.label(match n {
        1 => "1 gate",
        2..=4 => "2-4 gates",
        5..=8 => "5-8 gates",
        9..=16 => "9-16 gates",
        17..=64 => "17-64 gates",
        _ => "65+ gates",
    });
    cx.label_if(n.is_power_of_two(), "no padding");
    cx.label_if(c.gates.iter().any(|g| !g.pi.is_zero()), "public inputs");
    cx.label_if(c.gates.iter().any(|g| g.kind == Kind::Const), "constants");
    let linked = c.gates.iter().enumerate().any(|(i, g)| (0..3).any(|w| g.next[w] != (w, i)));
    cx.label_if(linked, "copies");
}

fn interesting(c: &Conc) -> bool {
    c.gates.len() > 1 && c.gates.iter().enumerate().any(|(i, g)| (0..3).any(|w| g.next[w].1 != i))
}

// ---------------------------------------------------------------- P01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HonestCase {
    c: CircR,
    s: Fe,
    extra: u8,
    digest: u8,
}

fn p01_honest(c: &HonestCase, cx: &mut Cx) -> R {
    match c.digest % 4 {
        0 => p01_with::<Sha256>(c, cx),
        1 => p01_with::<Sha512>(c, cx),
        3 => p01_with::<Short>(c, cx),
        _ => p01_with::<Salted<7>>(c, cx),
    }
}
fn p01_with<T: Digest + Default>(c: &HonestCase, cx: &mut Cx) -> R {
    let conc = c.c.build();
    assert!(conc.satisfied(), "the generator makes satisfied circuits");
    let cc = compile(&conc)?;
    ensure!(cc.size == conc.n(), "{} gates compile to size {}", conc.gates.len(), cc.size);
    let srs = Srs::new_from_secret(c.s.f(), cc.size + c.extra as usize);
    let p = try_prove::<T>(&cc, &srs).map_err(|m| format!("proving a satisfied circuit panics: {m}"))?;
    match judge::<T>(&cc, &srs, &p) {
        Err(m) => return Err(format!("verifying an honest proof panics: {m}").into()),
        Ok(Err(e)) => return Err(format!("an honest proof is rejected: {e}").into()),
        Ok(Ok(())) => {}
    }
    label_circ(&conc, cx);
    cx.label_if(c.extra > 0, "longer reference string");
    cx.label_if(!matches!(c.s, Fe::R(_)), "special secret");
    cx.nt(interesting(&conc));
    Ok(())
}

fn gate(kind: Kind, a: WireR, b: WireR, c: OutR) -> GateR {
    GateR { kind, a, b, c }
}

fn p01() -> Check {
    let one = |k| CircR { gates: vec![gate(k, WireR::New(Fe::S(2)), WireR::New(Fe::S(3)), OutR::Fresh(Fe::Z))], wiring: 0, split: false };
    let h = |c| HonestCase { c, s: Fe::R(1), extra: 0, digest: 0 };
    let mut examples = vec![h(one(Kind::Add)), h(one(Kind::Mul)), h(one(Kind::Const))];
    // zero everywhere; one value in all cells; long chain
    for n in [1usize, 2, 3, 4, 5, 16] {
        examples.push(h(CircR { gates: vec![gate(Kind::Add, WireR::New(Fe::Z), WireR::New(Fe::Z), OutR::Fresh(Fe::Z)); n], wiring: 0, split: false }));
        examples.push(h(CircR {
            gates: (0..n).map(|i| gate(Kind::Mul, if i == 0 { WireR::New(Fe::One) } else { WireR::Old(0) }, WireR::Old(0), OutR::Old(0))).collect(),
            wiring: 3,
            split: false,
        }));
        examples.push(h(CircR {
            gates: (0..n).map(|i| gate(if i % 2 == 0 { Kind::Mul } else { Kind::Add }, WireR::Old(u16::MAX), WireR::New(Fe::M1), OutR::Fresh(Fe::S(i as u32)))).collect(),
            wiring: 9,
            split: true,
        }));
    }
    examples.push(h(CircR { gates: (0..130).map(|_| gate(Kind::Add, WireR::Old(u16::MAX), WireR::Old(0), OutR::Fresh(Fe::Z))).collect(), wiring: 1, split: false }));
    for n in [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513] {
        examples.push(HonestCase { extra: (n % 3) as u8, digest: (n % 5) as u8, ..h(big(n, 1)) });
    }
    Check {
        id: "P01",
        assumptions: vec![GROUPS, "circuits have at least one gate"],
        subs: vec![Box::new(Sub {
            name: "honest",
            rule: "a circuit of random gate kinds, wiring, values and public inputs, satisfied by construction; it must compile, prove and verify. Non-trivial: more than one gate and a copy constraint between gates.",
            quick: 1500,
            thorough: 30000,
            examples,
            strat: || {
                (sizes(), secret(), prop_oneof![4 => Just(0u8), 1 => 0u8..6], any::<u8>())
                    .prop_map(|(c, s, extra, digest)| HonestCase { c, s, extra, digest })
                    .boxed()
            },
            run: p01_honest,
        })],
    }
}

// ---------------------------------------------------------------- P02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// one cell gets another value
    Cell(u16, u8, Fe),
    /// one cell is changed by this
    Shift(u16, u8, Fe),
    /// all cells of a variable change
    Var(u16, u8, Fe),
    Pi(u16, Fe),
    Kind(u16, Kind),
    /// two cells exchange their values
    Swap(u16, u8, u16, u8),
    /// a gate's row is cleared
    Zero(u16),
    /// along the cycle of a cell, whose places are numbers p: values (p+b)(q+b) - c, or c - p - q,
    /// for each place and the next one; without one of the two challenges that proves them equal
    Cycle(u16, u8, bool, Fe, Fe),
}

fn apply(c: &mut Conc, e: &Edit) {
    let n = c.gates.len();
    match e {
        Edit::Cell(i, w, v) => c.gates[idx(*i, n)].vals[*w as usize % 3] = v.f(),
        Edit::Shift(i, w, v) => c.gates[idx(*i, n)].vals[*w as usize % 3] += v.f::<Fr>(),
        Edit::Var(i, w, v) => {
            let var = c.gates[idx(*i, n)].var[*w as usize % 3];
            for g in &mut c.gates {
                for k in 0..3 {
                    if g.var[k] == var {
                        g.vals[k] = v.f();
                    }
                }
            }
        }
        Edit::Pi(i, v) => c.gates[idx(*i, n)].pi += v.f::<Fr>(),
        Edit::Kind(i, k) => c.gates[idx(*i, n)].kind = *k,
        Edit::Swap(i, w, j, x) => {
            let (a, b) = ((idx(*i, n), *w as usize % 3), (idx(*j, n), *x as usize % 3));
            let t = c.gates[a.0].vals[a.1];
            c.gates[a.0].vals[a.1] = c.gates[b.0].vals[b.1];
            c.gates[b.0].vals[b.1] = t;
        }
        Edit::Zero(i) => c.gates[idx(*i, n)].vals = [Fr::zero(); 3],
        Edit::Cycle(i, w, sum, b, d) => {
            let Ok(Ok(cc)) = catch(|| c.circuit().compile()) else { return };
            let root = cc_root(cc.size);
            let ks = [Fr::one(), *cc.copy_constraints().k1(), *cc.copy_constraints().k2()];
            let place = |(w, i): (usize, usize)| ks[w] * root.pow([i as u64]);
            let start = (*w as usize % 3, idx(*i, n));
            let mut at = start;
            loop {
                let next = c.gates[at.1].next[at.0];
                let (p, q) = (place(at), place(next));
                let (b, d): (Fr, Fr) = (b.f(), d.f());
                c.gates[at.1].vals[at.0] = if *sum { d - p - q } else { (p + b) * (q + b) - d };
                at = next;
                if at == start {
                    break;
                }
            }
        }
    }
}

fn cc_root(n: usize) -> Fr {
    ark_poly::GeneralEvaluationDomain::<Fr>::new(n).unwrap().group_gen()
}

fn edit() -> BoxedStrategy<Edit> {
    let k = || prop_oneof![Just(Kind::Add), Just(Kind::Mul), Just(Kind::Const)];
    prop_oneof![
        3 => (any::<u16>(), 0u8..3, fe()).prop_map(|(a, b, c)| Edit::Cell(a, b, c)),
        3 => (any::<u16>(), 0u8..3, fe_nz()).prop_map(|(a, b, c)| Edit::Shift(a, b, c)),
        3 => (any::<u16>(), 0u8..3, fe()).prop_map(|(a, b, c)| Edit::Var(a, b, c)),
        2 => (any::<u16>(), fe_nz()).prop_map(|(a, b)| Edit::Pi(a, b)),
        1 => (any::<u16>(), k()).prop_map(|(a, b)| Edit::Kind(a, b)),
        2 => (any::<u16>(), 0u8..3, any::<u16>(), 0u8..3).prop_map(|(a, b, c, d)| Edit::Swap(a, b, c, d)),
        1 => any::<u16>().prop_map(Edit::Zero),
        1 => (any::<u16>(), 0u8..3, any::<bool>(), prop_oneof![Just(Fe::Z), Just(Fe::One)], prop_oneof![Just(Fe::Z), Just(Fe::One), fe()])
            .prop_map(|(a, b, c, d, e)| Edit::Cycle(a, b, c, d, e)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FalseCase {
    c: CircR,
    e: Vec<Edit>,
    /// public inputs make the edited gates fit: all terms (0), or all but selector k - 1
    repair: Option<u8>,
    s: Fe,
    seed: u64,
    scale: Fe,
    /// which of the dishonest provers
    cheats: Vec<u16>,
}

fn repair(c: &mut Conc, without: usize) {
    for g in &mut c.gates {
        let [a, b, o] = g.vals;
        let terms = match g.kind {
            Kind::Add => vec![(1, a), (2, b), (3, -o)],
            Kind::Mul => vec![(4, a * b), (3, -o)],
            Kind::Const => vec![(1, a), (5, -a)],
        };
        g.pi = terms.iter().filter(|t| t.0 != without).map(|t| t.1).sum();
    }
}

fn p02_false(c: &FalseCase, cx: &mut Cx) -> R {
    let mut conc = c.c.build();
    for e in &c.e {
        apply(&mut conc, e);
    }
    if let Some(k) = c.repair {
        repair(&mut conc, k as usize % 6);
    }
    let cc = compile(&conc)?;
    let s: Fr = c.s.f();
    let srs = Srs::new_from_secret(s, cc.size);
    let own = try_prove::<Sha256>(&cc, &srs);
    label_circ(&conc, cx);
    if conc.satisfied() {
        // the edits cancel: the property says nothing, completeness does
        cx.label("still satisfied");
        let p = own.map_err(|m| format!("proving a satisfied circuit panics: {m}"))?;
        ensure!(!refused::<Sha256>(&cc, &srs, &p), "an honest proof is rejected");
        return Ok(());
    }
    cx.label(match (conc.gates_ok(), conc.copies_ok()) {
        (false, true) => "only a gate is violated",
        (true, false) => "only a copy is violated",
        _ => "gates and copies are violated",
    });
    cx.nt(true);
    match own {
        Ok(p) => ensure!(refused::<Sha256>(&cc, &srs, &p), "the prover's proof of a violated circuit is accepted"),
        Err(_) => cx.label("the prover refuses"),
    }
    // other provers, for the public polynomials that the verifier has
    let pl = Polys::of(&cc);
    let all = cheats(c.scale.f());
    let mut done = HashSet::new();
    let mut hopeless = 0;
    for k in &c.cheats {
        let k = *k as usize % all.len();
        if !done.insert(k) {
            continue;
        }
        let (p, works) = prove_weak::<Sha256>(&pl, s, c.seed, &all[k]);
        cx.label(format!("{}: {}", if works { "would pass without the check" } else { "fails anyway" }, all[k].name));
        hopeless += !works as usize;
        if works || hopeless <= 5 {
            ensure!(refused::<Sha256>(&cc, &srs, &p), "a proof of a violated circuit made by cheating ({}) is accepted", all[k].name);
        }
    }
    Ok(())
}

fn p02() -> Check {
    let f = |gates: Vec<GateR>, e, repair| FalseCase {
        c: CircR { gates, wiring: 1, split: false },
        e,
        repair,
        s: Fe::R(3),
        seed: 5,
        scale: Fe::S(2),
        cheats: (0..cheats(Fr::one()).len() as u16).collect(),
    };
    let g = || gate(Kind::Mul, WireR::New(Fe::S(2)), WireR::Old(0), OutR::Fresh(Fe::Z));
    let add = || gate(Kind::Add, WireR::New(Fe::S(6)), WireR::Old(0), OutR::Fresh(Fe::Z));
    let k = || gate(Kind::Const, WireR::New(Fe::S(4)), WireR::Old(0), OutR::Fresh(Fe::Z));
    let mut examples = vec![
        f(vec![g()], vec![Edit::Shift(0, 2, Fe::One)], None),
        f(vec![g()], vec![Edit::Pi(0, Fe::One)], None),
        f(vec![g(), g(), g()], vec![Edit::Shift(u16::MAX, 0, Fe::One)], None),
        f(vec![g(), g(), g(), g()], vec![Edit::Shift(u16::MAX, 2, Fe::One)], None),
        // both gates stay satisfied, the variable is two values
        f(vec![gate(Kind::Add, WireR::New(Fe::Z), WireR::New(Fe::S(5)), OutR::Fresh(Fe::Z)), gate(Kind::Mul, WireR::Old(0), WireR::Old(0), OutR::Fresh(Fe::Z))], vec![
            Edit::Cell(u16::MAX, 0, Fe::Z),
        ], None),
        // the last output stands alone
        f(vec![add(), g(), k(), g()], vec![Edit::Shift(u16::MAX, 2, Fe::One)], None),
        f(vec![add(), g()], vec![Edit::Shift(0, 2, Fe::One)], None),
        f(vec![add(), g(), k()], vec![Edit::Shift(u16::MAX, 0, Fe::One)], Some(0)),
    ];
    for w in 0..3 {
        // copies only
        examples.push(f(vec![add(), g(), k(), g(), k()], vec![Edit::Shift(0, w, Fe::S(7))], Some(0)));
        examples.push(f(vec![add(), g(), k(), g()], vec![Edit::Shift(u16::MAX, w, Fe::S(7))], Some(0)));
    }
    for j in 1..6 {
        examples.push(f(vec![add(), g(), k()], vec![], Some(j)));
    }
    examples.push(f(vec![add(), g(), k()], vec![Edit::Pi(1, Fe::One)], None));
    // a variable on one wire only
    let new = |k| WireR::New(Fe::S(k));
    for (w, second) in [
        gate(Kind::Mul, WireR::Old(0), new(5), OutR::Fresh(Fe::Z)),
        gate(Kind::Mul, new(5), WireR::Old(20000), OutR::Fresh(Fe::Z)),
        gate(Kind::Mul, new(5), new(6), OutR::Old(33000)),
    ].into_iter().enumerate() {
        examples.push(f(vec![gate(Kind::Add, new(8), new(9), OutR::Fresh(Fe::Z)), second], vec![Edit::Shift(u16::MAX, w as u8, Fe::S(3))], Some(0)));
    }
    // the first variable is on at least three cells
    for (sum, b, d) in [(false, Fe::Z, Fe::Z), (false, Fe::One, Fe::Z), (false, Fe::Z, Fe::One), (true, Fe::Z, Fe::Z)] {
        let gates = vec![g(), add(), gate(Kind::Add, new(3), WireR::Old(0), OutR::Fresh(Fe::Z)), gate(Kind::Mul, WireR::Old(0), new(2), OutR::Fresh(Fe::Z))];
        for i in [0, u16::MAX] {
            examples.push(f(gates.clone(), vec![Edit::Cycle(i, 0, sum, b.clone(), d.clone())], Some(0)));
        }
    }
    for n in [17usize, 33, 64, 65] {
        for i in [0, 20000, u16::MAX] {
            examples.push(f(big(n, 7).gates, vec![Edit::Shift(i, (n % 3) as u8, Fe::R(1))], None));
            examples.push(f(big(n, 7).gates, vec![Edit::Shift(i, (n % 3) as u8, Fe::R(1))], Some(0)));
        }
    }
    Check {
        id: "P02",
        assumptions: vec![GROUPS, "cheating provers are those of the listed strategies; soundness against all provers is the PLONK theorem"],
        subs: vec![Box::new(Sub {
            name: "violated",
            rule: "a satisfied circuit with edits of cells, variables, copy cycles, public inputs or gate kinds; whether a gate or copy is violated is decided on the recipe. The repository's prover and cheating provers of the model (each exploits one thing that a weaker protocol would not check: a selector, a wire, a row, a challenge, an opening, a hashed message...) must get no accepted proof. Non-trivial: a constraint is violated.",
            quick: 420,
            thorough: 10000,
            examples,
            strat: || {
                let repair = prop_oneof![5 => Just(None), 4 => Just(Some(0)), 1 => (1u8..6).prop_map(Some)];
                (small(), prop::collection::vec(edit(), 1..3), repair, generic(), any::<u64>(), fe(), prop::collection::vec(any::<u16>(), 9..10))
                    .prop_map(|(c, e, repair, s, seed, scale, cheats)| FalseCase { c, e, repair, s, seed, scale, cheats })
                    .boxed()
            },
            run: p02_false,
        })],
    }
}

// ---------------------------------------------------------------- P03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    None,
    /// commitment k plus this
    Com(u8, Fe),
    /// commitment k becomes the identity
    ComZero(u8),
    ComNeg(u8),
    ComSwap(u8, u8),
    Ev(u8, Fe),
    EvSet(u8, Fe),
    EvSwap(u8, u8),
    U(Fe),
    Degree(u8),
    DegreeBig(u64),
    /// a proportional change of the two opening witnesses
    Cancel(Fe),
    USet(Fe),
    /// these commitments become the identity
    ComZeros(u16),
    /// these evaluations become zero
    EvZeros(u8),
    /// both openings change sign
    NegBoth,
    /// the multipoint challenge is computed again
    Fix,
}

pub fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        1 => Just(Mut::None),
        6 => (0u8..9, fe_nz()).prop_map(|(a, b)| Mut::Com(a, b)),
        2 => (0u8..9).prop_map(Mut::ComZero),
        2 => (0u8..9).prop_map(Mut::ComNeg),
        2 => (0u8..9, 0u8..9).prop_map(|(a, b)| Mut::ComSwap(a, b)),
        4 => (0u8..6, fe_nz()).prop_map(|(a, b)| Mut::Ev(a, b)),
        2 => (0u8..6, fe()).prop_map(|(a, b)| Mut::EvSet(a, b)),
        1 => (0u8..6, 0u8..6).prop_map(|(a, b)| Mut::EvSwap(a, b)),
        1 => fe_nz().prop_map(Mut::U),
        2 => any::<u8>().prop_map(Mut::Degree),
        1 => any::<u64>().prop_map(Mut::DegreeBig),
        1 => fe_nz().prop_map(Mut::Cancel),
        1 => fe().prop_map(Mut::USet),
        1 => any::<u16>().prop_map(Mut::ComZeros),
        1 => any::<u8>().prop_map(Mut::EvZeros),
        1 => Just(Mut::NegBoth),
    ]
    .boxed()
}
/// Mostly followed by the right multipoint challenge.
fn mutations(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Mut>> {
    (prop::collection::vec(mutation(), n), prop::bool::weighted(0.6))
        .prop_map(|(mut v, fix)| {
            if fix {
                v.push(Mut::Fix);
            }
            v
        })
        .boxed()
}

fn coms(p: &mut Proof) -> [&mut KzgCommitment; 9] {
    [
        &mut p.a_commit,
        &mut p.b_commit,
        &mut p.c_commit,
        &mut p.z_commit,
        &mut p.t_lo_commit,
        &mut p.t_mid_commit,
        &mut p.t_hi_commit,
        &mut p.w_ev_x_commit,
        &mut p.w_ev_wx_commit,
    ]
}
fn evs(p: &mut Proof) -> [&mut Fr; 6] {
    [&mut p.bar_a, &mut p.bar_b, &mut p.bar_c, &mut p.bar_s_sigma_1, &mut p.bar_s_sigma_2, &mut p.bar_z_w]
}
fn plus(a: G1Affine, d: Fr) -> G1Affine {
    (G1Projective::from(a) + g1(d)).into_affine()
}

/// Changes the proof; `pi` commits to the public inputs.
pub fn mutate<T: Digest>(p: &mut Proof, m: &Mut, n: usize, pi: G1Affine) {
    match m {
        Mut::USet(d) => p.u = d.f(),
        Mut::ComZeros(k) => coms(p).into_iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).for_each(|(_, c)| c.0 = G1Affine::identity()),
        Mut::EvZeros(k) => evs(p).into_iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).for_each(|(_, e)| *e = Fr::zero()),
        Mut::NegBoth => {
            p.w_ev_x_commit.0 = -p.w_ev_x_commit.0;
            p.w_ev_wx_commit.0 = -p.w_ev_wx_commit.0;
        }
        Mut::Fix => p.u = challenges::<T>(pi, p).u,
        Mut::None => {}
        Mut::Com(k, d) => {
            let c = &mut *coms(p)[*k as usize % 9];
            c.0 = plus(c.0, d.f());
        }
        Mut::ComZero(k) => coms(p)[*k as usize % 9].0 = G1Affine::identity(),
        Mut::ComNeg(k) => {
            let c = &mut *coms(p)[*k as usize % 9];
            c.0 = -c.0;
        }
        Mut::ComSwap(a, b) => {
            let (a, b) = (*a as usize % 9, *b as usize % 9);
            let c = coms(p);
            let (x, y) = (c[a].0, c[b].0);
            c[a].0 = y;
            let c = coms(p);
            c[b].0 = x;
        }
        Mut::Ev(k, d) => *evs(p)[*k as usize % 6] += d.f::<Fr>(),
        Mut::EvSet(k, d) => *evs(p)[*k as usize % 6] = d.f(),
        Mut::EvSwap(a, b) => {
            let (a, b) = (*a as usize % 6, *b as usize % 6);
            let e = evs(p);
            let (x, y) = (*e[a], *e[b]);
            *evs(p)[a] = y;
            *evs(p)[b] = x;
        }
        Mut::U(d) => p.u += d.f::<Fr>(),
        Mut::Degree(d) => p.degree = *d as usize % (n + 4),
        Mut::DegreeBig(d) => p.degree = *d as usize,
        Mut::Cancel(d) => {
            let d: Fr = d.f();
            p.w_ev_x_commit.0 = plus(p.w_ev_x_commit.0, p.u * d);
            p.w_ev_wx_commit.0 = plus(p.w_ev_wx_commit.0, -d);
        }
    }
}

/// Where a proof comes from.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Source {
    /// the repository's prover
    Own,
    /// the model's prover
    Model(u64),
    /// arbitrary logarithms and evaluations; the openings are solved with the secret
    Sim { coms: Vec<Fe>, evs: Vec<Fe>, degree: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProofCase {
    c: CircR,
    e: Vec<Edit>,
    s: Fe,
    src: Source,
    m: Vec<Mut>,
}

fn fields(p: &Proof) -> (Vec<G1Affine>, Vec<Fr>, usize) {
    (
        vec![
            p.a_commit.0,
            p.b_commit.0,
            p.c_commit.0,
            p.z_commit.0,
            p.t_lo_commit.0,
            p.t_mid_commit.0,
            p.t_hi_commit.0,
            p.w_ev_x_commit.0,
            p.w_ev_wx_commit.0,
        ],
        vec![p.bar_a, p.bar_b, p.bar_c, p.bar_s_sigma_1, p.bar_s_sigma_2, p.bar_z_w, p.u],
        p.degree,
    )
}

/// A proof with any logarithms, whose openings satisfy the equation under `s`.
fn simulate<T: Digest>(pl: &Polys, s: Fr, coms: &[Fe], evs: &[Fe], degree: usize) -> Proof {
    let cf = |i: usize| coms.get(i).map_or(Fr::one(), Fe::f::<Fr>);
    let ev = |i: usize| evs.get(i).map_or(Fr::one(), Fe::f::<Fr>);
    let k = |i: usize| KzgCommitment(g1(cf(i)));
    let mut p = Proof {
        a_commit: k(0),
        b_commit: k(1),
        c_commit: k(2),
        z_commit: k(3),
        t_lo_commit: k(4),
        t_mid_commit: k(5),
        t_hi_commit: k(6),
        w_ev_x_commit: k(0),
        w_ev_wx_commit: k(0),
        bar_a: ev(0),
        bar_b: ev(1),
        bar_c: ev(2),
        bar_s_sigma_1: ev(3),
        bar_s_sigma_2: ev(4),
        bar_z_w: ev(5),
        u: Fr::zero(),
        degree,
    };
    let pi = g1(pl.q[5].evaluate(&s));
    let c = challenges::<T>(pi, &p);
    let t = terms(pl, s, &p, &c);
    let w = pl.domain().group_gen();
    let v = c.v;
    let sum = t.konst + t.z * cf(3) + t.t[0] * cf(4) + t.t[1] * cf(5) + t.t[2] * cf(6) + v * cf(0) + v * v * cf(1) + v.pow([3]) * cf(2);
    p.w_ev_x_commit = KzgCommitment(g1(sum / (s - c.zeta)));
    p.w_ev_wx_commit = KzgCommitment(g1((cf(3) - p.bar_z_w) / (s - c.zeta * w)));
    p.u = challenges::<T>(pi, &p).u;
    p
}

fn p03_exact(c: &ProofCase, cx: &mut Cx) -> R {
    let mut conc = c.c.build();
    for e in &c.e {
        apply(&mut conc, e);
    }
    let cc = compile(&conc)?;
    let s: Fr = c.s.f();
    let srs = Srs::new_from_secret(s, cc.size);
    let pl = Polys::of(&cc);
    let n = cc.size;
    let mut p = match &c.src {
        Source::Own => match try_prove::<Sha256>(&cc, &srs) {
            Ok(p) => p,
            Err(_) => return cx.skip(),
        },
        Source::Model(seed) => prove::<Sha256>(&pl, s, *seed),
        Source::Sim { coms, evs, degree } => {
            let d = *degree as usize % (n + 4);
            let p = simulate::<Sha256>(&pl, s, coms, evs, d);
            assert!(d > n + 1 || accepts::<Sha256>(&pl, s, &p), "the simulated proof satisfies the equation");
            p
        }
    };
    let before = fields(&p);
    let pi = g1(pl.q[5].evaluate(&s));
    for m in &c.m {
        mutate::<Sha256>(&mut p, m, n, pi);
    }
    let same = before == fields(&p);
    let want = accepts::<Sha256>(&pl, s, &p);
    let got = judge::<Sha256>(&cc, &srs, &p).map_err(|m| format!("the verifier panics: {m}"))?;
    let src = match &c.src {
        Source::Own => "the prover's",
        Source::Model(_) => "the model prover's",
        Source::Sim { .. } => "a simulated",
    };
    ensure!(
        want == got.is_ok(),
        "{src} proof (circuit {}, {}) is {} though it {} the PLONK equation",
        if conc.satisfied() { "satisfied" } else { "violated" },
        if same { "unchanged" } else { "changed" },
        if got.is_ok() { "accepted" } else { "rejected" },
        if want { "satisfies" } else { "does not satisfy" }
    );
    if !same && matches!(c.src, Source::Own) && conc.satisfied() {
        ensure!(got.is_err(), "a valid proof that was changed is accepted");
    }
    label_circ(&conc, cx);
    cx.label(format!("{} proof", src));
    cx.label(if want { "accepted" } else { "rejected" });
    cx.label(if same { "unchanged" } else { "changed" });
    cx.label_if(!same && p.u == challenges::<Sha256>(pi, &p).u, "changed, right multipoint challenge");
    cx.nt(!same || want);
    Ok(())
}

fn p03() -> Check {
    let base = |src, m| ProofCase {
        c: CircR {
            gates: vec![
                gate(Kind::Mul, WireR::New(Fe::S(2)), WireR::Old(0), OutR::Fresh(Fe::S(3))),
                gate(Kind::Const, WireR::New(Fe::S(4)), WireR::Old(0), OutR::Fresh(Fe::Z)),
                gate(Kind::Add, WireR::Old(0), WireR::Old(u16::MAX), OutR::Fresh(Fe::Z)),
            ],
            wiring: 3,
            split: false,
        },
        e: vec![],
        s: Fe::R(11),
        src,
        m,
    };
    let mut examples = vec![base(Source::Own, vec![]), base(Source::Model(1), vec![])];
    for k in 0..9 {
        examples.push(base(Source::Own, vec![Mut::Com(k, Fe::One)]));
        examples.push(base(Source::Own, vec![Mut::ComZero(k)]));
        examples.push(base(Source::Own, vec![Mut::ComNeg(k)]));
    }
    for k in 0..6 {
        examples.push(base(Source::Own, vec![Mut::Ev(k, Fe::One)]));
        examples.push(base(Source::Own, vec![Mut::EvSet(k, Fe::Z)]));
    }
    examples.push(base(Source::Own, vec![Mut::U(Fe::One)]));
    for k in 0..examples.len() {
        let mut x = examples[k].clone();
        x.m.push(Mut::Fix);
        examples.push(x);
    }
    let sims = [
        Source::Own,
        Source::Sim { coms: vec![Fe::Z; 7], evs: vec![Fe::Z; 6], degree: 4 },
        Source::Sim { coms: (0..7).map(|k| Fe::R(k)).collect(), evs: vec![Fe::Z; 6], degree: 5 },
        Source::Sim { coms: vec![Fe::Z; 7], evs: (0..6).map(|k| Fe::R(k)).collect(), degree: 0 },
    ];
    for src in sims {
        for m in [
            vec![],
            vec![Mut::USet(Fe::Z)],
            vec![Mut::USet(Fe::One)],
            vec![Mut::USet(Fe::M1)],
            vec![Mut::ComZeros(3 << 7)],
            vec![Mut::ComZeros(u16::MAX)],
            vec![Mut::EvZeros(u8::MAX)],
            vec![Mut::ComZeros(u16::MAX), Mut::EvZeros(u8::MAX)],
            vec![Mut::ComZeros(0x7f), Mut::EvZeros(u8::MAX)],
            vec![Mut::NegBoth],
            vec![Mut::ComSwap(7, 8)],
        ] {
            let mut fixed = m.clone();
            fixed.push(Mut::Fix);
            examples.push(base(src.clone(), m));
            examples.push(base(src.clone(), fixed));
        }
    }
    for d in 0..8 {
        examples.push(base(Source::Own, vec![Mut::Degree(d)]));
    }
    for d in [u64::MAX, u64::MAX / 2, 1 << 63, (1 << 63) - 1, 6] {
        examples.push(base(Source::Own, vec![Mut::DegreeBig(d)]));
    }
    for n in [17usize, 33, 65, 130] {
        for src in [Source::Own, Source::Model(1), Source::Sim { coms: (0..7).map(Fe::R).collect(), evs: (0..6).map(Fe::R).collect(), degree: 0 }] {
            for m in [vec![], vec![Mut::Com(4, Fe::R(1)), Mut::Fix], vec![Mut::Com(0, Fe::R(1)), Mut::Fix], vec![Mut::Ev(5, Fe::R(1)), Mut::Fix], vec![Mut::Degree(2), Mut::Fix]] {
                examples.push(ProofCase { c: big(n, 6), ..base(src.clone(), m) });
            }
        }
    }
    Check {
        id: "P03",
        assumptions: vec![GROUPS, "the proof's equation is evaluated with the secret of the reference string instead of the pairing", "the transcript order is that of the PLONK paper with the public inputs first"],
        subs: vec![Box::new(Sub {
            name: "exact",
            rule: "a proof of a (satisfied or violated) circuit from the repository's prover, the model's prover or a simulator that solves the openings with the secret, then changed in 0-3 places (mostly with the multipoint challenge computed again); the verifier's verdict must be the model's. Non-trivial: the proof was changed or is accepted.",
            quick: 1300,
            thorough: 26000,
            examples,
            strat: || {
                let src = prop_oneof![
                    3 => Just(Source::Own),
                    2 => any::<u64>().prop_map(Source::Model),
                    5 => (prop::collection::vec(fe(), 7..8), prop::collection::vec(fe(), 6..7), any::<u8>()).prop_map(|(coms, evs, degree)| Source::Sim { coms, evs, degree }),
                ];
                let e = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(edit(), 1..2)];
                let m = prop_oneof![2 => Just(vec![]), 5 => mutations(1..2), 2 => mutations(2..4)];
                (small(), e, generic(), src, m).prop_map(|(c, e, s, src, m)| ProofCase { c, e, s, src, m }).boxed()
            },
            run: p03_exact,
        })],
    }
}

// ---------------------------------------------------------------- P04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Diff {
    Kind(u16, Kind),
    Const(u16, Fe),
    Pi(u16, Fe),
    /// the public inputs of two gates, by opposite amounts
    PiPair(u16, u16, Fe),
    /// the cells' places in the copy cycles are exchanged
    Copy(u16, u8, u16, u8),
    /// a cell leaves its cycle
    Uncopy(u16, u8),
    Drop(u16),
    Append(GateR),
    Duplicate(u16),
    SwapGates(u16, u16),
}

pub fn diff() -> BoxedStrategy<Diff> {
    let k = || prop_oneof![Just(Kind::Add), Just(Kind::Mul), Just(Kind::Const)];
    prop_oneof![
        2 => (any::<u16>(), k()).prop_map(|(a, b)| Diff::Kind(a, b)),
        2 => (any::<u16>(), fe_nz()).prop_map(|(a, b)| Diff::Const(a, b)),
        3 => (any::<u16>(), fe_nz()).prop_map(|(a, b)| Diff::Pi(a, b)),
        1 => (any::<u16>(), any::<u16>(), fe_nz()).prop_map(|(a, b, c)| Diff::PiPair(a, b, c)),
        3 => (any::<u16>(), 0u8..3, any::<u16>(), 0u8..3).prop_map(|(a, b, c, d)| Diff::Copy(a, b, c, d)),
        1 => (any::<u16>(), 0u8..3).prop_map(|(a, b)| Diff::Uncopy(a, b)),
        1 => any::<u16>().prop_map(Diff::Drop),
        2 => gate_r().prop_map(Diff::Append),
        1 => any::<u16>().prop_map(Diff::Duplicate),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Diff::SwapGates(a, b)),
    ]
    .boxed()
}

pub fn differ(a: &Conc, d: &Diff) -> Conc {
    let mut b = a.clone();
    let n = b.gates.len();
    match d {
        Diff::Kind(i, k) => b.gates[idx(*i, n)].kind = *k,
        Diff::Const(i, v) => {
            let cs: Vec<usize> = (0..n).filter(|i| b.gates[*i].kind == Kind::Const).collect();
            if !cs.is_empty() {
                b.gates[cs[idx(*i, cs.len())]].vals[0] += v.f::<Fr>();
            }
        }
        Diff::Pi(i, v) => b.gates[idx(*i, n)].pi += v.f::<Fr>(),
        Diff::PiPair(i, j, v) => {
            b.gates[idx(*i, n)].pi += v.f::<Fr>();
            b.gates[idx(*j, n)].pi -= v.f::<Fr>();
        }
        Diff::Copy(i, w, j, x) => {
            let (p, q) = ((idx(*i, n), *w as usize % 3), (idx(*j, n), *x as usize % 3));
            let t = b.gates[p.0].next[p.1];
            b.gates[p.0].next[p.1] = b.gates[q.0].next[q.1];
            b.gates[q.0].next[q.1] = t;
        }
        Diff::Uncopy(i, w) => {
            let p = (*w as usize % 3, idx(*i, n));
            let t = b.gates[p.1].next[p.0];
            for g in &mut b.gates {
                for k in 0..3 {
                    if g.next[k] == p {
                        g.next[k] = t;
                    }
                }
            }
            b.gates[p.1].next[p.0] = p;
        }
        Diff::Drop(i) => {
            if n > 1 {
                let k = idx(*i, n);
                let gone = b.gates.remove(k);
                for g in b.gates.iter_mut() {
                    for w in 0..3 {
                        // its cells leave their cycles
                        let mut t = g.next[w];
                        while t.1 == k {
                            t = gone.next[t.0];
                        }
                        g.next[w] = if t.1 > k { (t.0, t.1 - 1) } else { t };
                    }
                }
            }
        }
        Diff::Append(g) => {
            let mut x = CircR { gates: vec![g.clone()], wiring: 0, split: false }.build().gates.remove(0);
            for w in 0..3 {
                x.next[w] = (w, n);
            }
            b.gates.push(x);
        }
        Diff::Duplicate(i) => {
            let mut x = b.gates[idx(*i, n)].clone();
            for w in 0..3 {
                x.next[w] = (w, n);
            }
            b.gates.push(x);
        }
        Diff::SwapGates(i, j) => {
            let (i, j) = (idx(*i, n), idx(*j, n));
            b.gates.swap(i, j);
            for g in &mut b.gates {
                for w in 0..3 {
                    let t = g.next[w].1;
                    g.next[w].1 = if t == i { j } else if t == j { i } else { t };
                }
            }
        }
    }
    b
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OtherCase {
    c: CircR,
    d: Diff,
    s: Fe,
    other: Fe,
    /// new wire values for the verifier's copy
    vals: u64,
    extra: u8,
}

fn p04_other(c: &OtherCase, cx: &mut Cx) -> R {
    use ark_ff::UniformRand;
    use rand::SeedableRng;
    let a = c.c.build();
    let b = differ(&a, &c.d);
    let (ca, cb) = (compile(&a)?, compile(&b)?);
    let s: Fr = c.s.f();
    let srs = Srs::new_from_secret(s, ca.size);
    let big = Srs::new_from_secret(s, ca.size.max(cb.size) + c.extra as usize);
    let p = try_prove::<Sha256>(&ca, &srs).map_err(|m| format!("proving a satisfied circuit panics: {m}"))?;
    ensure!(!refused::<Sha256>(&ca, &srs, &p), "an honest proof is rejected for its own circuit");

    // what the verifier is told, in terms of the recipe
    let public = |x: &Conc, y: &CompiledCircuit| {
        let t = x.tables(*y.copy_constraints().k1(), *y.copy_constraints().k2());
        (t.n, t.q, t.s)
    };
    let same = public(&a, &ca) == public(&b, &cb);
    if same {
        cx.label("no difference");
        ensure!(!refused::<Sha256>(&cb, &srs, &p), "the proof is rejected for the same circuit");
    } else {
        cx.label(match &c.d {
            Diff::Kind(..) => "gate kind",
            Diff::Const(..) => "constant",
            Diff::Pi(..) | Diff::PiPair(..) => "public input",
            Diff::Copy(..) | Diff::Uncopy(..) => "copy constraint",
            Diff::SwapGates(..) => "gate order",
            _ if ca.size != cb.size => "size",
            _ => "gate count",
        });
        cx.nt(true);
        ensure!(refused::<Sha256>(&cb, &big, &p), "a proof is accepted for another circuit ({:?})", c.d);
    }
    // another assignment in the verifier's copy; constants stay
    let mut other = a.clone();
    let mut rng = rand::rngs::StdRng::seed_from_u64(c.vals);
    for g in &mut other.gates {
        for w in 0..3 {
            if w > 0 || g.kind != Kind::Const {
                g.vals[w] = Fr::rand(&mut rng);
            }
        }
    }
    let co = compile(&other)?;
    ensure!(!refused::<Sha256>(&co, &srs, &p), "the verdict depends on the witness in the verifier's circuit");
    // reference strings
    ensure!(!refused::<Sha256>(&ca, &big, &p), "the proof is rejected with a longer string of the same secret");
    let o: Fr = c.other.f();
    if o != s {
        let srs2 = Srs::new_from_secret(o, ca.size);
        ensure!(refused::<Sha256>(&ca, &srs2, &p), "the proof is accepted under the reference string of another secret");
        cx.label("other secret");
    }
    let fresh = Srs::new(ca.size);
    ensure!(refused::<Sha256>(&ca, &fresh, &p), "the proof is accepted under a fresh reference string");
    Ok(())
}

fn p04_adaptive(c: &OtherCase, cx: &mut Cx) -> R {
    let a = c.c.build();
    let n = a.gates.len();
    if n < 2 {
        return cx.skip();
    }
    let ca = compile(&a)?;
    let s: Fr = c.s.f();
    let srs = Srs::new_from_secret(s, ca.size);
    let p = try_prove::<Rec>(&ca, &srs).map_err(|m| format!("proving a satisfied circuit panics: {m}"))?;
    let (ok, log) = recorded(|| refused::<Rec>(&ca, &srs, &p));
    ensure!(!ok, "an honest proof is rejected");
    // every challenge that the verifier may have drawn is tried as the evaluation point
    let pl = Polys::of(&ca);
    let mut points = vec![challenges::<Rec>(g1(pl.q[5].evaluate(&s)), &p).zeta];
    for (_, out) in &log {
        let t = Tr::<Rec>::with(out.clone());
        points.extend(t.squeeze::<2>());
    }
    let delta: Fr = c.other.f();
    let dom = pl.domain();
    let mut tried = 0;
    for z in points {
        // a change of the gates' public inputs that vanishes at the point: on the
        // padding rows it is zero, so it is divisible by their vanishing polynomial
        let mut d = P::from_coefficients_vec(vec![-z * delta, delta]);
        for i in n..ca.size {
            d = &d * &P::from_coefficients_vec(vec![-dom.element(i), Fr::one()]);
        }
        if d.is_zero() {
            return cx.skip();
        }
        let mut b = a.clone();
        for i in 0..n {
            // the polynomial holds the negated public inputs
            b.gates[i].pi -= d.evaluate(&dom.element(i));
        }
        let cb = compile(&b)?;
        assert!(cb.gate_constraints().pi_x().evaluate(&z) == ca.gate_constraints().pi_x().evaluate(&z));
        ensure!(refused::<Rec>(&cb, &srs, &p), "the proof is accepted for public inputs that were chosen to agree with it at its evaluation point");
        tried += 1;
    }
    cx.label(format!("{tried} points"));
    cx.nt(true);
    Ok(())
}

fn p04() -> Check {
    let strat = || {
        (small(), diff(), generic(), fe_nz(), any::<u64>(), 0u8..4)
            .prop_map(|(c, d, s, other, vals, extra)| OtherCase { c, d, s, other, vals, extra })
            .boxed()
    };
    Check {
        id: "P04",
        assumptions: vec![GROUPS, "two circuits are the same when their gate selectors, constants, public inputs, wiring and size are"],
        subs: vec![
            Box::new(Sub {
                name: "other",
                rule: "a proof and a circuit that differs in one gate kind, constant, public input, copy constraint, gate or order (or only in the witness), and other reference strings. Non-trivial: the public parts differ.",
                quick: 900,
                thorough: 18000,
                examples: {
                    let mut v = vec![];
                    for n in [16usize, 17, 32, 40, 64, 70, 130] {
                        // at the first and last gates, and one in between
                        for (k, i) in [0, 30000, u16::MAX].into_iter().enumerate() {
                            let mut add = |d| v.push(OtherCase { c: big(n, 2), d, s: Fe::R(1), other: Fe::R(2), vals: 3, extra: 0 });
                            match k {
                                0 => add(Diff::Append(big(1, 1).gates[0].clone())),
                                1 => add(Diff::Drop(i)),
                                _ => add(Diff::Duplicate(i)),
                            }
                            if n < 100 {
                                add(Diff::Pi(i, Fe::R(4)));
                                add(Diff::Const(i, Fe::R(4)));
                                add(Diff::Copy(i, k as u8, 12345, 1));
                                add(Diff::Kind(i, [Kind::Add, Kind::Mul, Kind::Const][k]));
                            }
                        }
                    }
                    v
                },
                strat,
                run: p04_other,
            }),
            Box::new(Sub {
                name: "adaptive",
                rule: "public inputs chosen after the proof, so that their polynomial agrees with the proof's at a challenge, for every challenge that could be derived from the digests of the transcript. Non-trivial: at least two gates.",
                quick: 60,
                thorough: 1200,
                examples: vec![],
                strat: || {
                    (circ(2..=6), diff(), generic(), fe_nz(), any::<u64>(), 0u8..4)
                        .prop_map(|(c, d, s, other, vals, extra)| OtherCase { c, d, s, other, vals, extra })
                        .boxed()
                },
                run: p04_adaptive,
            }),
        ],
    }
}

// ---------------------------------------------------------------- P05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BlindCase {
    c: CircR,
    s: Fe,
    /// which element of the domain
    at: u16,
}

static TAGS: Mutex<Option<HashSet<String>>> = Mutex::new(None);
fn fresh(tag: String) -> bool {
    TAGS.lock().unwrap().get_or_insert_with(HashSet::new).insert(tag)
}

/// The permutation polynomial's values, from the definition.
fn accumulator(conc: &Conc, k1: Fr, k2: Fr, beta: Fr, gamma: Fr) -> Vec<Fr> {
    let t = conc.tables(k1, k2);
    let dom = ark_poly::GeneralEvaluationDomain::<Fr>::new(t.n).unwrap();
    let ks = [Fr::one(), k1, k2];
    let mut acc = vec![Fr::one()];
    for i in 0..t.n - 1 {
        let (mut a, mut b) = (Fr::one(), Fr::one());
        for w in 0..3 {
            a *= t.f[w][i] + beta * ks[w] * dom.element(i) + gamma;
            b *= t.f[w][i] + beta * t.s[w][i] + gamma;
        }
        acc.push(acc[i] * a / b);
    }
    acc
}

fn p05_domain(c: &BlindCase, cx: &mut Cx) -> R {
    let conc = c.c.build();
    let cc = compile(&conc)?;
    let n = cc.size;
    let i = idx(c.at, n);
    let dom = ark_poly::GeneralEvaluationDomain::<Fr>::new(n).unwrap();
    // with the secret on the domain, a commitment shows the value there
    let s = dom.element(i);
    let srs = Srs::new_from_secret(s, n);
    let p = try_prove::<Sha256>(&cc, &srs).map_err(|m| format!("proving a satisfied circuit panics: {m}"))?;
    let (k1, k2) = (*cc.copy_constraints().k1(), *cc.copy_constraints().k2());
    let t = conc.tables(k1, k2);
    for (w, got) in [&p.a_commit, &p.b_commit, &p.c_commit].iter().enumerate() {
        ensure!(got.0 == g1(t.f[w][i]), "blinding changes wire polynomial {w} at element {i} of the domain");
    }
    let ch = challenges::<Sha256>(g1(t.q[5][i]), &p);
    let acc = accumulator(&conc, k1, k2, ch.beta, ch.gamma);
    ensure!(p.z_commit.0 == g1(acc[i]), "blinding changes the permutation polynomial at element {i} of the domain");
    label_circ(&conc, cx);
    cx.nt(interesting(&conc));
    Ok(())
}

fn value(v: &[Fr], x: Fr) -> Fr {
    use ark_poly::{Evaluations, GeneralEvaluationDomain};
    let dom = GeneralEvaluationDomain::<Fr>::new(v.len()).unwrap();
    Evaluations::from_vec_and_domain(v.to_vec(), dom).interpolate().evaluate(&x)
}

fn p05_fresh(c: &BlindCase, cx: &mut Cx) -> R {
    let conc = c.c.build();
    let cc = compile(&conc)?;
    let n = cc.size;
    let s: Fr = c.s.f();
    let zs = s.pow([n as u64]) - Fr::one();
    if zs.is_zero() {
        return cx.skip();
    }
    let srs = Srs::new_from_secret(s, n);
    let (k1, k2) = (*cc.copy_constraints().k1(), *cc.copy_constraints().k2());
    let t = conc.tables(k1, k2);
    let w = ark_poly::GeneralEvaluationDomain::<Fr>::new(n).unwrap().group_gen();
    let mut proofs = vec![];
    for _ in 0..2 {
        proofs.push(try_prove::<Sha256>(&cc, &srs).map_err(|m| format!("proving a satisfied circuit panics: {m}"))?);
    }
    let cc = std::sync::Arc::new(cc);
    let (cc2, srs2) = (cc.clone(), srs.clone());
    proofs.push(std::thread::spawn(move || generate_proof::<Sha256>(&cc2, srs2)).join().map_err(|_| "proving in a thread panics")?);
    let pi = g1(value(&t.q[5], s));
    for p in &proofs {
        let ch = challenges::<Sha256>(pi, p);
        let z = ch.zeta;
        let zh = z.pow([n as u64]) - Fr::one();
        let acc = accumulator(&conc, k1, k2, ch.beta, ch.gamma);
        // the blinding polynomials at the evaluation point, and in the exponent at the secret
        let mut bars = vec![];
        let mut at_s = vec![];
        for (k, (bar, com)) in [(p.bar_a, &p.a_commit), (p.bar_b, &p.b_commit), (p.bar_c, &p.c_commit)].iter().enumerate() {
            bars.push((*bar - value(&t.f[k], z)) / zh);
            at_s.push(((G1Projective::from(com.0) - g1(value(&t.f[k], s))) * zs.inverse().unwrap()).into_affine());
        }
        let zwh = (z * w).pow([n as u64]) - Fr::one();
        bars.push((p.bar_z_w - value(&acc, z * w)) / zwh);
        at_s.push(((G1Projective::from(p.z_commit.0) - g1(value(&acc, s))) * zs.inverse().unwrap()).into_affine());
        let names = ["a", "b", "c", "z"];
        blinders(s, z, z * w, &bars, &at_s)?;
        for k in 0..4 {
            ensure!(!bars[k].is_zero() && !at_s[k].is_zero(), "the polynomial of {} is not blinded", names[k]);
            ensure!(g1(bars[k]) != at_s[k], "the blinding factor of {} is a constant", names[k]);
            for small in 1u64..4 {
                ensure!(g1(Fr::from(small)) != at_s[k] && g1(-Fr::from(small)) != at_s[k], "the blinding factor of {} is {small}", names[k]);
            }
            for j in 0..k {
                ensure!(at_s[j] != at_s[k] && at_s[j] != -at_s[k], "{} and {} have the same blinding factor", names[j], names[k]);
                ensure!(bars[j] != bars[k] && bars[j] != -bars[k], "{} and {} have the same blinding factor", names[j], names[k]);
            }
            ensure!(fresh(format!("{}", at_s[k])), "the blinding factor of {} was used before", names[k]);
            ensure!(fresh(format!("{}", bars[k])), "the blinding factor of {} was used before", names[k]);
        }
        for e in [&p.a_commit, &p.b_commit, &p.c_commit, &p.z_commit] {
            ensure!(fresh(format!("com {}", e.0)), "two proofs share a commitment");
        }
        for e in [p.bar_a, p.bar_b, p.bar_c, p.bar_z_w] {
            ensure!(fresh(format!("ev {e}")), "two proofs share an evaluation");
        }
    }
    // the secret 0 shows the constant coefficients
    cx.label_if(s.is_zero(), "constant coefficients");
    label_circ(&conc, cx);
    cx.nt(true);
    Ok(())
}

/// The single blinding scalars, as far as the two values of each factor give them away.
fn blinders(s: Fr, z: Fr, zw: Fr, bars: &[Fr], at_s: &[G1Affine]) -> R {
    let gen = G1Projective::from(G1Affine::generator());
    let names = ["a", "b", "c"];
    for k in 0..3 {
        let bits = crate::lattice::smallest(&[z, Fr::one()], bars[k]);
        ensure!(bits > 100, "the blinding scalars of {} have {bits} bits", names[k]);
    }
    let bits = crate::lattice::smallest(&[zw * zw, zw, Fr::one()], bars[3]);
    ensure!(bits > 68, "the blinding scalars of z have {bits} bits");
    let Some(d) = (s - z).inverse() else { return Ok(()) };
    // the wires' scalars, in the exponent
    let mut b = vec![];
    for k in 0..3 {
        let b0 = (G1Projective::from(at_s[k]) - gen * bars[k]) * d;
        b.push(b0);
        b.push(gen * bars[k] - b0 * z);
    }
    let aff = G1Projective::normalize_batch(&b);
    let name = |i: usize| format!("{} of {}", i % 2, names[i / 2]);
    for i in 0..6 {
        ensure!(!b[i].is_zero(), "blinding scalar {} is zero", name(i));
        ensure!(fresh(format!("scalar {}", aff[i])), "blinding scalar {} was used before", name(i));
        ensure!(fresh(format!("scalar {}", -aff[i])), "the negated blinding scalar {} was used before", name(i));
        for j in 0..i {
            ensure!(!crate::kzg_checks::near(aff[i], aff[j]), "blinding scalars {} and {} are near each other", name(i), name(j));
        }
    }
    // the permutation's: two of the three may be those of wires, at their places
    if s.is_zero() || zw.is_zero() {
        return Ok(());
    }
    let pw = |x: Fr| [x * x, x, Fr::one()];
    let (ps, pz) = (pw(s), pw(zw));
    let times = |p: &[Fr; 3]| -> Vec<[G1Projective; 3]> { b.iter().map(|b| [*b * p[0], *b * p[1], *b]).collect() };
    let (bs, bz) = (times(&ps), times(&pz));
    let (ts, tz) = (G1Projective::from(at_s[3]), gen * bars[3]);
    for free in 0..3 {
        let [x, y] = [[1, 2], [0, 2], [0, 1]][free];
        let ratio = pz[free] * ps[free].inverse().unwrap();
        for i in 0..6 {
            for j in 0..6 {
                let rest = ts - bs[i][x] - bs[j][y];
                ensure!(
                    rest * ratio + bz[i][x] + bz[j][y] != tz,
                    "the permutation is blinded with scalars {} and {} of the wires",
                    name(i),
                    name(j)
                );
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RewindCase {
    c: CircR,
    /// the secrets of five reference strings
    s: u64,
    seed: u64,
    bit: u8,
}

/// The coefficients of the polynomial of lowest degree through the points, in the exponent.
fn through(xs: &[Fr], ys: &[G1Projective]) -> Vec<G1Projective> {
    let n = xs.len();
    let mut d = ys.to_vec();
    for k in 1..n {
        for i in (k..n).rev() {
            d[i] = (d[i] - d[i - 1]) * (xs[i] - xs[i - k]).inverse().unwrap();
        }
    }
    // Newton to monomials
    let mut c = vec![G1Projective::zero(); n];
    for i in (0..n).rev() {
        for j in (0..n).rev() {
            let low = if j > 0 { c[j - 1] } else { G1Projective::zero() };
            c[j] = low - c[j] * xs[i];
        }
        c[0] += d[i];
    }
    while c.last().is_some_and(|x| x.is_zero()) {
        c.pop();
    }
    c
}

/// The prover is run again and again with the same entropy and other reference strings, which
/// shows its blinding polynomials at several secrets.
fn p05_rewind(c: &RewindCase, cx: &mut Cx) -> R {
    let conc = c.c.build();
    let cc = std::sync::Arc::new(compile(&conc)?);
    let n = cc.size;
    let mut rng = StdRng::seed_from_u64(c.s);
    let xs: Vec<Fr> = (0..5).map(|_| Fr::rand(&mut rng)).collect();
    let (k1, k2) = (*cc.copy_constraints().k1(), *cc.copy_constraints().k2());
    let t = conc.tables(k1, k2);
    let run = |s: Fr, seed: u64, flip: Option<usize>| {
        let (cc, srs) = (cc.clone(), Srs::new_from_secret(s, n));
        let (p, used) = crate::entropy::with(seed, flip, move || generate_proof::<Sha256>(&cc, srs));
        p.map(|p| (p, used)).ok_or_else(|| "proving a satisfied circuit panics".to_string())
    };
    let coms = |p: &Proof| [p.a_commit.0, p.b_commit.0, p.c_commit.0, p.z_commit.0];
    let (first, used) = run(xs[0], c.seed, None)?;
    let (again, _) = run(xs[0], c.seed, None)?;
    if used == 0 || coms(&first) != coms(&again) {
        // it draws on something else too
        return cx.skip();
    }
    ensure!(used >= 16, "the blinding is a function of {used} bytes of entropy");
    let bit = c.bit as usize % 128;
    let mut matters = false;
    for k in 0..8 {
        let seed = c.seed.wrapping_add(k);
        if coms(&run(xs[0], seed, None)?.0) != coms(&run(xs[0], seed, Some(bit))?.0) {
            matters = true;
            break;
        }
    }
    ensure!(matters, "the blinding does not depend on bit {bit} of the {used} bytes of entropy it draws");
    let mut ys = vec![vec![]; 4];
    for s in &xs {
        let p = run(*s, c.seed, None)?.0;
        let ch = challenges::<Sha256>(g1(value(&t.q[5], *s)), &p);
        let acc = accumulator(&conc, k1, k2, ch.beta, ch.gamma);
        let zs = (s.pow([n as u64]) - Fr::one()).inverse().unwrap();
        for (k, com) in coms(&p).iter().enumerate() {
            let f = if k < 3 { &t.f[k] } else { &acc };
            ys[k].push((G1Projective::from(*com) - g1(value(f, *s))) * zs);
        }
    }
    let names = ["a", "b", "c", "z"];
    let polys: Vec<_> = ys.iter().map(|y| through(&xs, y)).collect();
    if polys.iter().any(|p| p.len() == 5) {
        // the blinding depends on the reference string too
        return cx.skip();
    }
    let mut all: Vec<(String, G1Projective)> = vec![];
    for k in 0..4 {
        let want = if k < 3 { 2 } else { 3 };
        ensure!(polys[k].len() == want, "the blinding factor of {} has {} coefficients, not {want}", names[k], polys[k].len());
        for (i, x) in polys[k].iter().enumerate() {
            all.push((format!("{i} of {}", names[k]), *x));
        }
    }
    let aff = G1Projective::normalize_batch(&all.iter().map(|x| x.1).collect::<Vec<_>>());
    for i in 0..9 {
        let name = &all[i].0;
        ensure!(!aff[i].is_zero(), "blinding scalar {name} is zero");
        ensure!(!small_log(aff[i]), "blinding scalar {name} is small");
        for j in 0..i {
            ensure!(!crate::kzg_checks::near(aff[i], aff[j]), "blinding scalars {name} and {} are near each other", all[j].0);
        }
    }
    // no scalar is a small combination of two others
    let mut sums = std::collections::HashMap::new();
    let mut list = vec![];
    for i in 0..9 {
        for j in 0..i {
            for (x, y) in [(1, 1), (1, -1), (2, 1), (1, 2), (2, -1), (1, -2)] {
                let m = |p: G1Projective, k: i32| {
                    let q = if k.abs() == 2 { p + p } else { p };
                    if k < 0 {
                        -q
                    } else {
                        q
                    }
                };
                list.push(((i, j), m(all[i].1, x) + m(all[j].1, y)));
            }
        }
    }
    let flat = G1Projective::normalize_batch(&list.iter().map(|x| x.1).collect::<Vec<_>>());
    for (k, p) in flat.iter().enumerate() {
        sums.insert(*p, list[k].0);
        sums.insert(-*p, list[k].0);
    }
    for i in 0..9 {
        if let Some((a, b)) = sums.get(&aff[i]) {
            return Err(format!("blinding scalar {} is a small combination of {} and {}", all[i].0, all[*a].0, all[*b].0).into());
        }
    }
    label_circ(&conc, cx);
    cx.nt(true);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LotsCase {
    /// thousands of proofs
    k: u8,
    n: u8,
}

/// So many beginnings of proofs that blinding from few bits repeats. The reference string's secret is zero, so a
/// commitment is a constant coefficient: what is assigned minus a blinding scalar.
fn p05_lots(c: &LotsCase, cx: &mut Cx) -> R {
    use crate::digests::{until, Stop};
    let conc = big(c.n as usize, 3).build();
    let cc = compile(&conc)?;
    let srs = Srs::new_from_secret(Fr::zero(), cc.size);
    let per = 125 * c.k as usize;
    let mut all: Vec<[u8; 32]> = std::thread::scope(|t| {
        let (cc, srs) = (&cc, &srs);
        let run = move || {
            (0..per)
                .map(|_| {
                    // public inputs and three wires
                    let b = until(4, || drop(generate_proof::<Stop>(cc, srs.clone())));
                    <[u8; 32]>::from(<Sha256 as sha2_10::Digest>::digest(b))
                })
                .collect::<Vec<_>>()
        };
        let l: Vec<_> = (0..8).map(|_| t.spawn(run)).collect();
        l.into_iter().flat_map(|x| x.join().unwrap_or_default()).collect()
    });
    ensure!(all.len() == 8 * per, "proving panics");
    all.sort_unstable();
    ensure!(!all.windows(2).any(|w| w[0] == w[1]), "two of {} proofs begin with the same commitments", 8 * per);
    cx.nt(true);
    Ok(())
}

/// Is it within 64 of zero?
fn small_log(p: G1Affine) -> bool {
    let g = G1Projective::from(G1Affine::generator());
    let mut x = G1Projective::zero();
    (0..64).any(|_| {
        let hit = x == p || -x == p;
        x += g;
        hit
    })
}

fn p05_zero(c: &BlindCase, cx: &mut Cx) -> R {
    p05_fresh(&BlindCase { s: Fe::Z, ..c.clone() }, cx)
}

/// The permutation polynomial's blinding factor has three scalars, so its
/// commitment needs the whole string of the compiled size.
fn p05_degree(c: &BlindCase, cx: &mut Cx) -> R {
    let conc = c.c.build();
    let cc = compile(&conc)?;
    let srs = Srs::new_from_secret(c.s.f(), cc.size - 1);
    ensure!(try_prove::<Sha256>(&cc, &srs).is_err(), "no polynomial of the proof has degree size + 2");
    label_circ(&conc, cx);
    cx.nt(true);
    Ok(())
}

fn p05_processes(c: &BlindCase, cx: &mut Cx) -> R {
    let _ = c;
    let mut all = HashSet::new();
    for _ in 0..3 {
        let e = emitted("plonk");
        ensure!(e.len() == 16, "a fresh process made no proofs");
        for l in e {
            ensure!(all.insert(l.clone()), "proofs of two processes share a commitment or evaluation");
        }
    }
    cx.nt(true);
    Ok(())
}

pub fn emit() -> Vec<String> {
    let c = CircR { gates: vec![gate(Kind::Mul, WireR::New(Fe::S(2)), WireR::Old(0), OutR::Fresh(Fe::Z)); 3], wiring: 1, split: false }.build();
    let cc = compile(&c).unwrap();
    let srs = Srs::new_from_secret(Fr::from(77u64), cc.size);
    (0..2)
        .flat_map(|_| {
            let p = generate_proof::<Sha256>(&cc, srs.clone());
            vec![
                p.a_commit.0.to_string(),
                p.b_commit.0.to_string(),
                p.c_commit.0.to_string(),
                p.z_commit.0.to_string(),
                p.bar_a.to_string(),
                p.bar_b.to_string(),
                p.bar_c.to_string(),
                p.bar_z_w.to_string(),
            ]
        })
        .collect()
}

fn p05() -> Check {
    let strat = || (small(), generic(), any::<u16>()).prop_map(|(c, s, at)| BlindCase { c, s, at }).boxed();
    Check {
        id: "P05",
        assumptions: vec![GROUPS, "freshness is judged by distinctness over proofs, threads and processes and by dependence on every bit of 128 bits of system entropy, not by predicting the generator"],
        subs: vec![
            Box::new(Sub {
                name: "domain",
                rule: "the reference string's secret is an element of the domain, so commitments show the polynomials' values there; they must be the unblinded ones. Non-trivial: more than one gate and a copy constraint between gates.",
                quick: 900,
                thorough: 18000,
                examples: [16usize, 17, 40, 64, 65, 130].map(|n| BlindCase { c: big(n, 3), s: Fe::R(1), at: (n * 500) as u16 }).to_vec(),
                strat,
                run: p05_domain,
            }),
            Box::new(Sub {
                name: "fresh",
                rule: "three proofs of one statement, one in another thread; the blinding factors at the evaluation point and at the secret must be non-zero, no constants, and different from each other and from all others of the run.",
                quick: 250,
                thorough: 5000,
                examples: [16usize, 17, 40, 64, 65, 130].map(|n| BlindCase { c: big(n, 3), s: Fe::R(1), at: (n * 500) as u16 }).to_vec(),
                strat,
                run: p05_fresh,
            }),
            Box::new(Sub {
                name: "constant-coefficients",
                rule: "the same with the secret 0, which shows the constant coefficients of the blinding factors.",
                quick: 120,
                thorough: 2000,
                examples: vec![],
                strat,
                run: p05_zero,
            }),
            Box::new(Sub {
                name: "rewind",
                rule: "the prover runs with chosen operating-system entropy, repeatedly with reference strings of five secrets; from its commitments all nine blinding scalars are computed in the exponent: as many as stated, non-zero, unrelated, and every bit of the first 16 bytes of entropy matters. Non-trivial when the blinding is a function of that entropy.",
                quick: 130,
                thorough: 3000,
                examples: [16usize, 17, 40, 65].map(|n| RewindCase { c: big(n, 3), s: n as u64, seed: n as u64, bit: n as u8 }).to_vec(),
                strat: || (small(), any::<u64>(), any::<u64>(), any::<u8>()).prop_map(|(c, s, seed, bit)| RewindCase { c, s, seed, bit }).boxed(),
                run: p05_rewind,
            }),
            Box::new(Sub {
                name: "lots",
                rule: "the beginnings (up to the commitments to the wires) of 190000 proofs of one circuit made by eight threads are all different (1000 in a generated case), so the blinding has at least some 32 bits.",
                quick: 20,
                thorough: 400,
                examples: vec![LotsCase { k: 190, n: 1 }],
                strat: || (1u8..9).prop_map(|n| LotsCase { k: 1, n }).boxed(),
                run: p05_lots,
            }),
            Box::new(Sub {
                name: "degree",
                rule: "proving with a string that is one point short must be impossible, since the permutation polynomial is blinded with three scalars.",
                quick: 120,
                thorough: 2000,
                examples: [16usize, 17, 40, 64, 65, 130].map(|n| BlindCase { c: big(n, 3), s: Fe::R(1), at: (n * 500) as u16 }).to_vec(),
                strat,
                run: p05_degree,
            }),
            Box::new(Sub {
                name: "processes",
                rule: "two proofs of one statement in each of three fresh processes share no commitment or evaluation.",
                quick: 2,
                thorough: 10,
                examples: vec![],
                strat,
                run: p05_processes,
            }),
        ],
    }
}

// ---------------------------------------------------------------- P06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DigestCase {
    c: CircR,
    s: Fe,
    d: u8,
    other: u8,
    seed: u64,
    /// of a simulated proof
    coms: Vec<Fe>,
    evs: Vec<Fe>,
}

macro_rules! with_digest {
    ($k:expr, $t:ident, $e:expr) => {
        match $k % 8 {
            0 => {
                type $t = Sha256;
                $e
            }
            1 => {
                type $t = Sha512;
                $e
            }
            2 => {
                type $t = Sha224;
                $e
            }
            3 => {
                type $t = Sha384;
                $e
            }
            4 => {
                type $t = Salted<1>;
                $e
            }
            5 => {
                type $t = Salted<2>;
                $e
            }
            6 => {
                type $t = Rec;
                $e
            }
            _ => {
                type $t = Short;
                $e
            }
        }
    };
}

fn p06_digest(c: &DigestCase, cx: &mut Cx) -> R {
    let conc = c.c.build();
    let cc = compile(&conc)?;
    let s: Fr = c.s.f();
    let srs = Srs::new_from_secret(s, cc.size);
    let pl = Polys::of(&cc);
    let p = with_digest!(c.d, D, try_prove::<D>(&cc, &srs)).map_err(|m| format!("proving panics: {m}"))?;
    let ok = with_digest!(c.d, D, judge::<D>(&cc, &srs, &p));
    ensure!(ok == Ok(Ok(())), "a proof is rejected with the digest it was made with: {ok:?}");
    ensure!(with_digest!(c.d, D, accepts::<D>(&pl, s, &p)), "the proof's challenges are not those of its messages and digest {}", c.d % 8);
    let q = with_digest!(c.d, D, prove::<D>(&pl, s, c.seed));
    ensure!(with_digest!(c.d, D, !refused::<D>(&cc, &srs, &q)), "the verifier's challenges are not those of the messages and digest {}", c.d % 8);
    let x = with_digest!(c.d, D, simulate::<D>(&pl, s, &c.coms, &c.evs, cc.size + 1));
    ensure!(with_digest!(c.d, D, !refused::<D>(&cc, &srs, &x)), "the verifier's challenges are not those of messages with identities or zeros and digest {}", c.d % 8);
    // Rec is SHA-256
    let name = |d: u8| if d % 8 == 6 { 0 } else { d % 8 };
    if name(c.d) != name(c.other) {
        ensure!(with_digest!(c.other, D, refused::<D>(&cc, &srs, &p)), "a proof made with digest {} is accepted with digest {}", c.d % 8, c.other % 8);
        cx.nt(true);
    }
    cx.label(format!("digest {}", c.d % 8));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BindCase {
    c: CircR,
    s: Fe,
    /// arbitrary commitments and evaluations instead of an honest proof
    sim: Option<(Vec<Fe>, Vec<Fe>)>,
    before: Option<Mut>,
    m: Mut,
    pi: Fe,
    at: u16,
}

fn p06_binding(c: &BindCase, cx: &mut Cx) -> R {
    let conc = c.c.build();
    let cc = compile(&conc)?;
    let s: Fr = c.s.f();
    let srs = Srs::new_from_secret(s, cc.size);
    let pl = Polys::of(&cc);
    let mut p = match &c.sim {
        Some((coms, evs)) => simulate::<Rec>(&pl, s, coms, evs, cc.size + 1),
        None => prove::<Rec>(&pl, s, 1),
    };
    if let Some(m) = &c.before {
        mutate::<Rec>(&mut p, m, cc.size, g1(Fr::zero()));
    }
    let seed = |cc: &CompiledCircuit, p: &Proof| -> Result<Vec<u8>, String> {
        let (r, log) = recorded(|| judge::<Rec>(cc, &srs, p));
        let _ = r.map_err(|m| format!("the verifier panics: {m}"))?;
        log.last().map(|x| x.1.clone()).ok_or("the verifier hashes nothing".to_string())
    };
    let last = seed(&cc, &p)?;
    ensure!(seed(&cc, &p)? == last, "the same messages give different challenges");
    let mut q = clone_proof(&p);
    mutate::<Rec>(&mut q, &c.m, cc.size, g1(Fr::zero()));
    let (x, y) = (fields(&p), fields(&q));
    if x.0 != y.0 || x.1[..6] != y.1[..6] {
        ensure!(seed(&cc, &q)? != last, "the last challenge does not depend on a message ({:?})", c.m);
        cx.label("message");
        cx.nt(true);
    }
    let mut b = conc.clone();
    let n = b.gates.len();
    b.gates[idx(c.at, n)].pi += c.pi.f::<Fr>();
    if !c.pi.f::<Fr>().is_zero() {
        ensure!(seed(&compile(&b)?, &p)? != last, "the last challenge does not depend on a public input");
        cx.label("public input");
        cx.nt(true);
    }
    Ok(())
}

fn p06() -> Check {
    Check {
        id: "P06",
        assumptions: vec![GROUPS, "SHA-2 of the sha2 crate", "the transcript is a hash chain over uncompressed commitments whose first 8 bytes seed StdRng"],
        subs: vec![
            Box::new(Sub {
                name: "digest",
                rule: "SHA-224/256/384/512, two salted, one recording digest and one of 20 bytes: proofs verify with their own digest, agree with the model's transcript in both directions, and are rejected with another. Non-trivial: two different digests.",
                quick: 700,
                thorough: 14000,
                examples: [16usize, 17, 33, 65, 129].map(|n| DigestCase { c: big(n, 4), s: Fe::R(1), d: (n % 6) as u8, other: (n % 5 + 1) as u8, seed: 1, coms: vec![Fe::R(1); 7], evs: vec![Fe::R(2); 6] }).to_vec(),
                strat: || {
                    let few = prop_oneof![2 => Just(Fe::Z), 1 => Just(Fe::One), 2 => fe()];
                    (small(), generic(), 0u8..8, 0u8..8, any::<u64>(), prop::collection::vec(few.clone(), 7..8), prop::collection::vec(few, 6..7))
                        .prop_map(|(c, s, d, other, seed, coms, evs)| DigestCase { c, s, d, other, seed, coms, evs })
                        .boxed()
                },
                run: p06_digest,
            }),
            Box::new(Sub {
                name: "binding",
                rule: "the digest that seeds the verifier's last challenge, of honest proofs and of proofs of special messages (identities, zeros, equal ones), before and after changing or exchanging messages or a public input. Non-trivial: something changed.",
                quick: 700,
                thorough: 14000,
                examples: vec![],
                strat: || {
                    let few = prop_oneof![3 => Just(Fe::Z), 1 => Just(Fe::One), 1 => fe()];
                    let sim = prop_oneof![1 => Just(None), 2 => (prop::collection::vec(few.clone(), 7..8), prop::collection::vec(few, 6..7)).prop_map(Some)];
                    (small(), generic(), sim, prop::option::of(mutation()), mutation(), fe(), any::<u16>())
                        .prop_map(|(c, s, sim, before, m, pi, at)| BindCase { c, s, sim, before, m, pi, at })
                        .boxed()
                },
                run: p06_binding,
            }),
        ],
    }
}

// ---------------------------------------------------------------- P07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CompileCase {
    c: CircR,
    e: Vec<Edit>,
}

fn on_domain(name: &str, p: &P, want: &[Fr], n: usize) -> R {
    let w = ark_poly::GeneralEvaluationDomain::<Fr>::new(n).unwrap().group_gen();
    ensure!(p.coeffs.len() <= n, "{name} has {} coefficients for size {n}", p.coeffs.len());
    let mut x = Fr::one();
    for (i, v) in want.iter().enumerate() {
        ensure!(horner(&p.coeffs, x) == *v, "{name} is wrong at row {i} of {n}");
        x *= w;
    }
    Ok(())
}

fn cosets(k1: Fr, k2: Fr, n: usize) -> R {
    let e = |x: Fr| x.pow([n as u64]);
    ensure!(!k1.is_zero() && !k2.is_zero(), "a coset constant is zero");
    ensure!(!e(k1).is_one() && !e(k2).is_one() && !e(k1 / k2).is_one(), "the cosets of size {n} overlap");
    Ok(())
}

fn p07_tables(c: &CompileCase, cx: &mut Cx) -> R {
    let mut conc = c.c.build();
    for e in &c.e {
        apply(&mut conc, e);
    }
    let cc = compile(&conc)?;
    let n = conc.gates.len().next_power_of_two();
    ensure!(cc.size == n, "{} gates compile to size {}", conc.gates.len(), cc.size);
    let pl = Polys::of(&cc);
    cosets(pl.k1, pl.k2, n)?;
    let t = conc.tables(pl.k1, pl.k2);
    for (k, name) in ["q_l", "q_r", "q_o", "q_m", "q_c", "pi"].iter().enumerate() {
        on_domain(name, &pl.q[k], &t.q[k], n)?;
    }
    for k in 0..3 {
        on_domain(["f_a", "f_b", "f_c"][k], &pl.f[k], &t.f[k], n)?;
        on_domain(["sigma_1", "sigma_2", "sigma_3"][k], &pl.s[k], &t.s[k], n)?;
    }
    // the builder without witness
    let (g, k, m) = catch(|| conc.cpi().compile()).map_err(|m| format!("the witness-free circuit panics: {m}"))?.map_err(|e| format!("the witness-free circuit fails: {e}"))?;
    ensure!(m == n, "the witness-free circuit compiles to size {m}");
    for (name, x, y) in [
        ("q_l", g.q_lx(), cc.gate_constraints().q_lx()),
        ("q_r", g.q_rx(), cc.gate_constraints().q_rx()),
        ("q_o", g.q_ox(), cc.gate_constraints().q_ox()),
        ("q_m", g.q_mx(), cc.gate_constraints().q_mx()),
        ("q_c", g.q_cx(), cc.gate_constraints().q_cx()),
        ("pi", g.pi_x(), cc.gate_constraints().pi_x()),
    ] {
        ensure!(x == y, "{name} of the witness-free circuit differs");
    }
    ensure!(k == *cc.copy_constraints(), "the permutation of the witness-free circuit differs");
    label_circ(&conc, cx);
    cx.nt(interesting(&conc));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DummyCase {
    c: CircR,
    /// a dummy gate before this gate
    at: Vec<u8>,
    end: u8,
}

fn p07_dummies(c: &DummyCase, cx: &mut Cx) -> R {
    use plonk::common_preprocessed_input::cpi_circuit::CPICircuit;
    let conc = c.c.build();
    let k = conc.gates.len();
    let mut dummy = vec![0usize; k + 1];
    for a in &c.at {
        dummy[*a as usize % k] += 1;
    }
    dummy[k] = c.end as usize;
    // rows of the gates
    let mut row = vec![];
    let mut next = 0;
    for d in &dummy {
        next += d;
        row.push(next);
        next += 1;
    }
    let total = next - 1;
    let mut x = CPICircuit::default();
    for (i, g) in conc.gates.iter().enumerate() {
        for _ in 0..dummy[i] {
            x.add_dummy_gate();
        }
        let t = |w: usize| (g.next[w].0, row[g.next[w].1]);
        x = match g.kind {
            Kind::Add => x.add_addition_gate(t(0), t(1), t(2), g.pi),
            Kind::Mul => x.add_multiplication_gate(t(0), t(1), t(2), g.pi),
            Kind::Const => x.add_constant_gate(t(0), t(1), t(2), g.vals[0], g.pi),
        };
    }
    for _ in 0..dummy[k] {
        x.add_dummy_gate();
    }
    ensure!(x.get_gates().len() == total, "{} gates instead of {total}", x.get_gates().len());
    let (g, cp, n) = catch(|| x.compile()).map_err(|m| format!("compiling with dummy gates panics: {m}"))?.map_err(|e| format!("compiling fails: {e}"))?;
    ensure!(n == total.next_power_of_two(), "{total} gates compile to size {n}");
    let (k1, k2) = (*cp.k1(), *cp.k2());
    cosets(k1, k2, n)?;
    let w = ark_poly::GeneralEvaluationDomain::<Fr>::new(n).unwrap().group_gen();
    let ks = [Fr::one(), k1, k2];
    let roots: Vec<Fr> = (0..n).map(|i| w.pow([i as u64])).collect();
    let mut q = vec![vec![Fr::zero(); n]; 6];
    let mut s: Vec<Vec<Fr>> = (0..3).map(|k| roots.iter().map(|r| ks[k] * r).collect()).collect();
    let inner = conc.tables(k1, k2);
    for (i, gt) in conc.gates.iter().enumerate() {
        for j in 0..6 {
            q[j][row[i]] = inner.q[j][i];
        }
        for j in 0..3 {
            s[j][row[i]] = ks[gt.next[j].0] * roots[row[gt.next[j].1]];
        }
    }
    for (j, (name, p)) in [("q_l", g.q_lx()), ("q_r", g.q_rx()), ("q_o", g.q_ox()), ("q_m", g.q_mx()), ("q_c", g.q_cx()), ("pi", g.pi_x())].iter().enumerate() {
        on_domain(name, p, &q[j], n)?;
    }
    for (j, p) in [cp.s_sigma_1(), cp.s_sigma_2(), cp.s_sigma_3()].iter().enumerate() {
        on_domain(["sigma_1", "sigma_2", "sigma_3"][j], p, &s[j], n)?;
    }
    cx.label(format!("{} inner dummies", c.at.len()));
    cx.nt(!c.at.is_empty());
    Ok(())
}

fn p07() -> Check {
    Check {
        id: "P07",
        assumptions: vec!["field and domain arithmetic of the ark crates", "wires point inside the circuit"],
        subs: vec![
            Box::new(Sub {
                name: "tables",
                rule: "random circuits (a third of them unsatisfied); every compiled polynomial is evaluated by Horner on the whole domain and compared with the table of the recipe, and with the witness-free builder's. Non-trivial: more than one gate and a copy constraint between gates.",
                quick: 6000,
                thorough: 120000,
                examples: [32usize, 33, 64, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1025].map(|n| CompileCase { c: big(n, 5), e: vec![] }).to_vec(),
                strat: || {
                    let e = prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(edit(), 1..4)];
                    let c = prop_oneof![10 => sizes(), 1 => circ(60..=140)];
                    (c, e).prop_map(|(c, e)| CompileCase { c, e }).boxed()
                },
                run: p07_tables,
            }),
            Box::new(Sub {
                name: "dummies",
                rule: "explicit dummy gates before, between and after the gates of a witness-free circuit. Non-trivial: one before some gate.",
                quick: 4000,
                thorough: 80000,
                examples: [60usize, 64, 100, 200, 256, 300].map(|n| DummyCase { c: big(n, 5), at: vec![0, 7, 7, 59, 33, 200], end: (n % 3) as u8 }).to_vec(),
                strat: || {
                    (sizes(), prop::collection::vec(any::<u8>(), 0..5), 0u8..4).prop_map(|(c, at, end)| DummyCase { c, at, end }).boxed()
                },
                run: p07_dummies,
            }),
        ],
    }
}

// ---------------------------------------------------------------- V02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct JunkCase {
    c: CircR,
    s: Fe,
    coms: Vec<Fe>,
    evs: Vec<Fe>,
    degree: u64,
    /// start from an honest proof and change these
    m: Option<Vec<Mut>>,
    wrong_u: bool,
}

fn v02_junk(c: &JunkCase, cx: &mut Cx) -> R {
    let conc = c.c.build();
    let cc = compile(&conc)?;
    let s: Fr = c.s.f();
    let srs = Srs::new_from_secret(s, cc.size);
    let pl = Polys::of(&cc);
    let p = match &c.m {
        Some(m) => {
            let mut p = prove::<Sha256>(&pl, s, 1);
            for m in m {
                mutate::<Sha256>(&mut p, m, cc.size, g1(Fr::zero()));
            }
            // with the right challenge the verifier goes on to the equation
            p.u = challenges::<Sha256>(g1(pl.q[5].evaluate(&s)), &p).u;
            p
        }
        None => {
            let k = |i: usize| KzgCommitment(g1(c.coms.get(i).map_or(Fr::zero(), Fe::f)));
            let e = |i: usize| c.evs.get(i).map_or(Fr::zero(), Fe::f);
            let mut p = Proof {
                a_commit: k(0),
                b_commit: k(1),
                c_commit: k(2),
                z_commit: k(3),
                t_lo_commit: k(4),
                t_mid_commit: k(5),
                t_hi_commit: k(6),
                w_ev_x_commit: k(7),
                w_ev_wx_commit: k(8),
                bar_a: e(0),
                bar_b: e(1),
                bar_c: e(2),
                bar_s_sigma_1: e(3),
                bar_s_sigma_2: e(4),
                bar_z_w: e(5),
                u: e(6),
                degree: c.degree as usize,
            };
            if !c.wrong_u {
                p.u = challenges::<Sha256>(g1(pl.q[5].evaluate(&s)), &p).u;
            }
            p
        }
    };
    let r = judge::<Sha256>(&cc, &srs, &p);
    if let Err(m) = &r {
        return Err(format!("the verifier panics: {m}").into());
    }
    cx.label_if(c.m.is_some(), "changed honest proof");
    cx.label_if(!c.wrong_u || c.m.is_some(), "right multipoint challenge");
    cx.label_if(p.degree > cc.size + 1, "degree out of range");
    cx.nt(true);
    Ok(())
}

fn v02() -> Check {
    let one = CircR { gates: vec![gate(Kind::Add, WireR::New(Fe::S(2)), WireR::Old(0), OutR::Fresh(Fe::Z))], wiring: 0, split: false };
    let mut examples = vec![];
    for d in [0, 1, 2, u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, 1 << 32, 1 << 62] {
        for wrong_u in [false, true] {
            examples.push(JunkCase { c: one.clone(), s: Fe::R(1), coms: vec![], evs: vec![], degree: d, m: None, wrong_u });
        }
    }
    Check {
        id: "V02",
        assumptions: vec![GROUPS, "commitments are points of the curve"],
        subs: vec![Box::new(Sub {
            name: "junk",
            rule: "proofs of arbitrary points, evaluations and degree (identity, zero, small, random), or honest proofs changed in several places, with the right or a wrong multipoint challenge; a panic or abort is a violation. Every case is non-trivial.",
            quick: 2500,
            thorough: 50000,
            examples,
            strat: || {
                let deg = prop_oneof![2 => 0u64..20, 1 => any::<u64>(), 1 => (0u32..64).prop_map(|k| 1u64 << k), 1 => (0u64..4).prop_map(|k| u64::MAX - k), 1 => (0u64..4).prop_map(|k| u64::MAX / 2 - 1 + k)];
                let m = prop_oneof![1 => Just(None), 1 => prop::collection::vec(mutation(), 1..5).prop_map(Some)];
                (small(), secret(), prop::collection::vec(fe(), 0..10), prop::collection::vec(fe(), 0..8), deg, m, any::<bool>())
                    .prop_map(|(c, s, coms, evs, degree, m, wrong_u)| JunkCase { c, s, coms, evs, degree, m, wrong_u })
                    .boxed()
            },
            run: v02_junk,
        })],
    }
}
