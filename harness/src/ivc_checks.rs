//! Nova: incrementally verifiable computation, binding, robustness (N05 to N07, V03).

use std::sync::Arc;

use ark_bls12_381::{Fq, Fr, G1Affine};
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::circuit::{AugmentedCircuit, FCircuit, State};
use nova::ivc::{IVCProof, ZkIVCProof, IVC};
use nova::nifs::{NIFSProof, NIFS};
use nova::r1cs::{create_trivial_pair, is_r1cs_satisfied, FInstance, FWitness, R1CS};
use nova::transcript::Transcript;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::digests::{Rec, Salted};
use crate::fw::{catch, Check, Cx, Fail, Sub, R};
use crate::gen::*;
use crate::nova_checks::{prefix, same, shift, transcript, Dg};
use crate::nova_digest;
use crate::nova_model::*;

pub fn check(id: &str) -> Option<Check> {
    match id {
        "N05" => Some(n05()),
        "N06" => Some(n06()),
        "N07" => Some(n07()),
        "V03" => Some(v03()),
        _ => None,
    }
}

/// A value of the state field.
fn b(x: &Fe) -> Fq {
    match x {
        Fe::Root(k, e) => Fq::from(*k as u64 * 256 + *e as u64),
        Fe::Sum(x, k) => b(x) + Fq::from(2u64).pow([*k as u64]),
        x => x.f(),
    }
}
fn st(x: Fq) -> State {
    State { state: x }
}
fn to_fr(h: Fq) -> Fr {
    Fr::from_le_bytes_mod_order(&h.into_bigint().to_bytes_le())
}
fn to_fq(h: Fr) -> Fq {
    Fq::from_le_bytes_mod_order(&h.into_bigint().to_bytes_le())
}

/// A step function: a sequence of operations on the state.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(Fe),
    Mul(Fe),
    Square,
    Neg,
    AddW(u16),
    MulW(u16),
    /// forgets the state
    Set(Fe),
    SumW,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StepF(Vec<Op>);
impl FCircuit for StepF {
    fn run(&self, z_i: &State, w_i: &FWitness) -> State {
        let w = |j: &u16| if w_i.w.is_empty() { Fq::zero() } else { to_fq(w_i.w[idx(*j, w_i.w.len())]) };
        let mut z = z_i.state;
        for o in &self.0 {
            match o {
                Op::Add(c) => z += b(c),
                Op::Mul(c) => z *= b(c),
                Op::Square => z = z * z,
                Op::Neg => z = -z,
                Op::AddW(j) => z += w(j),
                Op::MulW(j) => z *= w(j),
                Op::Set(c) => z = b(c),
                Op::SumW => w_i.w.iter().for_each(|x| z += to_fq(*x)),
            }
        }
        st(z)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    shape: Shape,
    f: StepF,
    z0: Fe,
    /// witness of each step; the first step's is never folded
    w: Vec<(u64, Vec<Fe>)>,
    /// relaxed pairs would not be fresh: values that need not satisfy the structure
    loose: bool,
}

/// One step's claim and everything its proof was made from.
struct Step {
    i: Fq,
    zi: Fq,
    h: Option<Fq>,
    ivc: IVCProof,
    zk: ZkIVCProof,
    /// folded pair, W and U of the next step
    next: (FWitness, FInstance),
}
pub fn zk(p: &ZkIVCProof) -> ZkIVCProof {
    ZkIVCProof { u_i: p.u_i.clone(), big_u_i: p.big_u_i.clone(), com_t: p.com_t.clone(), folded_u_proof: p.folded_u_proof.clone() }
}
struct Run<T: Dg> {
    k: Setup,
    f: StepF,
    z0: Fq,
    trivial: (FWitness, FInstance),
    steps: Vec<Step>,
    _t: std::marker::PhantomData<T>,
}
impl<T: Dg> Run<T> {
    fn scheme(&self) -> KzgScheme {
        let r = &self.k.r1cs;
        KzgScheme::new(Srs::new_from_secret(self.k.s, r.matrix_a.len().max(r.num_vars)))
    }
    fn circuit(&self, n: usize) -> AugmentedCircuit<T, StepF> {
        let s = &self.steps[n];
        AugmentedCircuit {
            f_circuit: self.f.clone(),
            i: s.i,
            trivial_instance: self.trivial.1.clone(),
            z_0: st(self.z0),
            z_i: st(s.zi),
            z_i1: None,
            h_i: s.h,
            h_i1: None,
            phantom_data_t: Default::default(),
        }
    }
    fn ivc(&self, n: usize) -> IVC<T, StepF> {
        IVC { scheme: self.scheme(), augmented_circuit: self.circuit(n) }
    }
    fn hash(&self, i: Fq, z: Fq, u: &FInstance) -> Fq {
        AugmentedCircuit::<T, StepF>::hash_io(i, &st(self.z0), &st(z), u)
    }
}
impl Hist {
    fn witness(&self, k: &Setup, n: usize) -> FWitness {
        let (seed, few) = &self.w[n];
        let (mut w, _) = PairR::Fresh { w: *seed, few: few.clone() }.pair(k);
        if self.loose {
            w.w = PolyR::Rand(k.r1cs.num_vars as u16, *seed).coeffs();
        }
        FWitness { e: vec![Fr::zero(); k.rows()], w: w.w }
    }
    /// Runs the computation as the example of the repository does, checking every step.
    fn run<T: Dg>(&self, cx: &mut Cx, full: bool) -> Result<Run<T>, Fail> {
        let k = self.shape.setup();
        let trivial = create_trivial_pair(k.r1cs.num_io, k.r1cs.num_vars, &k.scheme);
        let z0 = b(&self.z0);
        let n = self.w.len();
        let w: Vec<FWitness> = (0..n).map(|i| self.witness(&k, i)).collect();
        // the reference: F applied i times
        let mut z = vec![z0];
        for w in &w {
            z.push(self.f.run(&st(*z.last().unwrap()), w).state);
        }
        let mut run = Run::<T> { k, f: self.f.clone(), z0, trivial, steps: vec![], _t: Default::default() };
        let (triv_w, triv_u) = run.trivial.clone();
        let mut ivc = IVC::<T, StepF> { scheme: run.scheme(), augmented_circuit: AugmentedCircuit::new(self.f.clone(), &triv_u, &st(z0)) };
        let mut ivc_proof = IVCProof::trivial_ivc_proof(&triv_u, &triv_w);
        let mut zkp = ZkIVCProof::trivial_zk_ivc_proof(&triv_u);
        let (mut big_w, mut big_u) = (triv_w.clone(), triv_u.clone());
        let mut hashes: Vec<Fq> = vec![];
        for i in 0..n {
            let at = Fq::from(i as u64);
            ensure!(ivc.augmented_circuit.i == at, "step {i}: the counter is {}", ivc.augmented_circuit.i);
            ensure!(ivc.augmented_circuit.z_i.state == z[i], "step {i}: the state is not F applied {i} times");
            ensure!(ivc.augmented_circuit.z_0.state == z0, "step {i}: the initial state changed");
            ensure!(ivc.augmented_circuit.h_i == hashes.last().copied(), "step {i}: the hash is not the previous step's");
            let go = |c: &mut AugmentedCircuit<T, StepF>, w_i: &FWitness| {
                if i == 0 {
                    c.run(&w_i.commit(&run.scheme(), &[Fr::zero()]), None, w_i, None)
                } else {
                    c.run(&ivc_proof.u_i, Some(&ivc_proof.big_u_i), w_i, zkp.com_t.as_ref())
                }
            };
            // tried with another witness first
            let vary = self.w[i].0.rotate_left(i as u32) % 8;
            if vary & 3 == 1 && n <= 8 {
                let o = FWitness { e: w[i].e.clone(), w: w[(i + 1) % n].w.iter().map(|x| *x + Fr::one()).collect() };
                let got = go(&mut ivc.augmented_circuit, &o);
                ensure!(got.is_ok(), "step {i}: the step circuit refuses another witness: {got:?}");
                let want = self.f.run(&st(z[i]), &o).state;
                ensure!(ivc.augmented_circuit.z_i1.as_ref().map(|s| s.state) == Some(want), "step {i}: with another witness the next state is not F of the state");
            }
            let h = match go(&mut ivc.augmented_circuit, &w[i]) {
                Ok(h) => h,
                Err(e) => return Err(format!("step {i}: the step circuit refuses an honest step: {e}").into()),
            };
            // the running instance of the next step is the folded one
            let want = run.hash(at + Fq::one(), z[i + 1], &big_u);
            ensure!(h == want, "step {i}: the hash is not the one of step {}, the next state and the folded instance", i + 1);
            ensure!(ivc.augmented_circuit.h_i1 == Some(h), "step {i}: the hash is not stored");
            ensure!(ivc.augmented_circuit.z_i1.as_ref().map(|s| s.state) == Some(z[i + 1]), "step {i}: the next state is not F of the state");
            ensure!(ivc.augmented_circuit.i == at && ivc.augmented_circuit.z_i.state == z[i], "step {i}: running the step advances");
            if vary >= 4 && n <= 8 {
                let again = go(&mut ivc.augmented_circuit, &w[i]);
                ensure!(again == Ok(h), "step {i}: run again gives {again:?}");
                let a = &ivc.augmented_circuit;
                ensure!(a.z_i1.as_ref().map(|s| s.state) == Some(z[i + 1]) && a.h_i1 == Some(h), "step {i}: run again the step's results are others");
                ensure!(a.i == at && a.z_i.state == z[i], "step {i}: running the step again advances");
            }
            for t in 0..2 * usize::from(full) {
                let got = ivc.verify(&zkp, &mut Transcript::<T>::default());
                ensure!(got.is_ok(), "step {i}: the honest proof is rejected (time {t}): {got:?}");
            }
            ensure!(!hashes.contains(&h), "step {i}: the hash is that of an earlier step");
            let zk_now = zk(&zkp);
            run.steps.push(Step {
                i: at,
                zi: z[i],
                h: hashes.last().copied(),
                ivc: IVCProof::new(&ivc_proof.u_i, &ivc_proof.w_i, &ivc_proof.big_u_i, &ivc_proof.big_w_i),
                zk: zk_now,
                next: (big_w.clone(), big_u.clone()),
            });
            // an independent verifier that only knows the claim
            if full {
                let got = run.ivc(i).verify(&zkp, &mut Transcript::<T>::default());
                ensure!(got.is_ok(), "step {i}: another verifier rejects the honest proof: {got:?}");
            }
            hashes.push(h);
            if i + 1 == n {
                break;
            }
            ivc.augmented_circuit.next_step();
            ensure!(ivc.augmented_circuit.z_i1.is_none() && ivc.augmented_circuit.h_i1.is_none(), "step {i}: the step's results are kept");
            let mut u = w[i + 1].commit(&run.scheme(), &[Fr::zero()]);
            u.x = vec![to_fr(h)];
            ivc_proof = IVCProof::new(&u, &w[i + 1], &big_u, &big_w);
            let (bw, bu, p) = ivc.prove(&run.k.r1cs, &ivc_proof, &mut Transcript::<T>::default());
            let com_t = p.com_t.as_ref().ok_or("the proof has no cross term")?;
            let r = p.folded_u_proof.as_ref().ok_or("the proof has no folding proof")?.r;
            ensure!(same(&p.u_i, &u) && same(&p.big_u_i, &big_u), "step {}: the proof is not about the given instances", i + 1);
            ensure!(same(&bu, &NIFS::<T>::verifier(r, &u, &big_u, com_t)), "step {}: folded instance", i + 1);
            ensure!(bw.w == lin(&w[i + 1].w, &big_w.w, r), "step {}: folded witness", i + 1);
            (big_w, big_u, zkp) = (bw, bu, p);
        }
        cx.label(if n <= 8 { format!("{n} steps") } else { "many steps".into() });
        cx.label_if((1..n).any(|i| z[i] == z[i - 1]), "state repeats");
        Ok(run)
    }
}
fn stepf() -> BoxedStrategy<StepF> {
    let op = prop_oneof![
        3 => fe().prop_map(Op::Add),
        2 => fe_nz().prop_map(Op::Mul),
        1 => Just(Op::Square),
        1 => Just(Op::Neg),
        3 => any::<u16>().prop_map(Op::AddW),
        1 => any::<u16>().prop_map(Op::MulW),
        1 => fe().prop_map(Op::Set),
        1 => Just(Op::SumW),
    ];
    prop::collection::vec(op, 0..4).prop_map(StepF).boxed()
}
/// A computation of many steps.
fn long(n: usize) -> Hist {
    Hist {
        shape: Shape { form: Form::Circuit { inputs: 1, ops: vec![(0, 1, Fe::S(3), 65535, Fe::S(2))] }, io: 1, slack: 0, s: Fe::R(n as u64) },
        f: StepF(vec![Op::Mul(Fe::S(3)), Op::AddW(0), Op::Square]),
        z0: Fe::R(7 + n as u64),
        w: (0..n as u64).map(|i| (i * i + n as u64, vec![])).collect(),
        loose: false,
    }
}
pub fn hist(steps: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Hist> {
    (
        ivc_shape(),
        stepf(),
        fe(),
        prop::collection::vec((any::<u64>(), prop::collection::vec(fe(), 0..3)), steps),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(shape, f, z0, w, loose)| Hist { shape, f, z0, w, loose })
        .boxed()
}

/// Something to ask about a computation, and the right answer.
pub type Question = (&'static str, bool, Box<dyn Fn() -> Result<bool, String> + Send + Sync>);
/// Questions about the steps of a computation: honest claims, claims changed as given, and the step circuit's hash.
pub fn questions(h: &Hist, lies: &[(u16, u8, Fe)]) -> Result<Vec<Question>, Fail> {
    type T = sha2_10::Sha256;
    let run = Arc::new(h.run::<T>(&mut Cx::default(), false)?);
    let n = run.steps.len();
    let mut v: Vec<Question> = vec![];
    for k in 0..n {
        let r = run.clone();
        v.push(("incremental verify", true, Box::new(move || Ok(r.ivc(k).verify(&r.steps[k].zk, &mut Transcript::<T>::default()).is_ok()))));
        if k + 1 < n {
            let r = run.clone();
            let w = h.witness(&run.k, k);
            let want = run.steps[k + 1].h;
            v.push((
                "step",
                true,
                Box::new(move || {
                    let (mut c, s) = (r.circuit(k), &r.steps[k]);
                    let big = (k > 0).then_some(&s.ivc.big_u_i);
                    Ok(c.run(&s.ivc.u_i, big, &w, s.zk.com_t.as_ref()).ok() == want)
                }),
            ));
            let r = run.clone();
            v.push((
                "incremental prove",
                true,
                Box::new(move || {
                    let (k, s) = (k + 1, &r.steps[k + 1]);
                    let (w, u, p) = r.ivc(k).prove(&r.k.r1cs, &s.ivc, &mut Transcript::<T>::default());
                    Ok(w.w == s.next.0.w && w.e == s.next.0.e && same(&u, &s.next.1) && same_proof(&p.folded_u_proof, &s.zk.folded_u_proof))
                }),
            ));
        }
    }
    for (at, what, d) in lies {
        let k = idx(*at, n);
        let (i, z0, zi) = (run.steps[k].i, run.z0, run.steps[k].zi);
        let (what, d, df) = (what % 6, b(d), d.f::<Fr>());
        let (di, dz0, dzi) = (if what == 0 { d } else { Fq::zero() }, if what == 1 { d } else { Fq::zero() }, if what == 2 { d } else { Fq::zero() });
        if d.is_zero() || df.is_zero() {
            continue;
        }
        // at step 0 only the states count
        let truth = i + di == Fq::zero() && z0 + dz0 == zi + dzi;
        let r = run.clone();
        v.push((
            "incremental verify changed",
            truth,
            Box::new(move || {
                let mut ivc = r.ivc(k);
                ivc.augmented_circuit.i += di;
                ivc.augmented_circuit.z_0.state += dz0;
                ivc.augmented_circuit.z_i.state += dzi;
                let mut p = zk(&r.steps[k].zk);
                match (what, &mut p.folded_u_proof) {
                    (3, Some(q)) => q.opening_w.1 += df,
                    (4, Some(q)) => q.r += df,
                    (5, _) => p.u_i.u += df,
                    _ => {}
                }
                Ok(ivc.verify(&p, &mut Transcript::<T>::default()).is_ok())
            }),
        ));
    }
    Ok(v)
}

// ---------------------------------------------------------------- N05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct N05 {
    h: Hist,
    digest: u8,
}
fn n05_run(c: &N05, cx: &mut Cx) -> R {
    nova_digest!(c.digest, n05_case(c, cx))
}
fn n05_case<T: Dg>(c: &N05, cx: &mut Cx) -> R {
    let run = c.h.run::<T>(cx, true)?;
    let n = run.steps.len();
    cx.nt(n > 2);
    // the running pair is satisfied whenever the steps' pairs were (public values are hashes)
    cx.label_if(run.steps[n - 1].next.0.e.iter().any(|x| !x.is_zero()), "folded error vector not zero");
    for (i, s) in run.steps.iter().enumerate() {
        let (w, u) = &s.next;
        ensure!(run.k.com(&w.w) == u.com_w && run.k.com(&w.e) == u.com_e, "step {i}: the running instance does not commit to the running witness");
    }
    Ok(())
}
fn n05() -> Check {
    Check {
        id: "N05",
        assumptions: vec!["field, curve and pairing arithmetic of ark-bls12-381", "the digest has no accidental collision"],
        subs: vec![Box::new(Sub {
            name: "histories",
            rule: "computations of one to seven steps with generated step function, structure, witnesses, setup and digest, run as the repository's example does; counter, state, hash, folded pair and verification at each step, by the same and by an independent verifier. Non-trivial: three steps or more.",
            quick: 900,
            thorough: 25000,
            examples: [(9, 0), (16, 1), (17, 2), (18, 3), (33, 4), (34, 0), (65, 1), (66, 2), (100, 2), (129, 2), (257, 2), (259, 1)].map(|(n, digest)| N05 { h: long(n), digest }).into(),
            strat: || (hist(1..=7), 0u8..6).prop_map(|(h, digest)| N05 { h, digest }).boxed(),
            run: n05_run,
        })],
    }
}

// ---------------------------------------------------------------- N06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Lie {
    I(Fe),
    Z0(Fe),
    Zi(Fe),
    SwapZ,
    /// the claim of another step
    ClaimOf(u8),
    /// the state of another step
    StateOf(u8),
    /// the proof of another step
    ProofOf(u8),
    /// of the same step of a history from another initial state
    ProofElsewhere(Fe),
    U(u8, Fe),
    BigU(u8, Fe),
    SwapU,
    DropX(bool),
    PushX(bool, Fe),
    ComT(Fe),
    Proof(u8, Fe),
    SwapOpenings,
    NoT,
    NoProof,
    /// parts of another step's proof
    PartOf(u8, u8),
    /// honestly folded and proved again with a fresh instance that is wrong:
    /// error commitment, scalar, public hash
    Again(u8, Fe),
    /// ... with another running instance
    AgainBig(u8, Fe),
    /// folded the other way round
    AgainSwapped,
    /// the trivial proof
    Trivial,
    Prefix(Fe),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct N06 {
    h: Hist,
    digest: u8,
    at: u16,
    lies: Vec<Lie>,
}
fn field(u: &mut FInstance, f: u8, d: Fr) {
    match f % 4 {
        0 => u.com_e = shift(&u.com_e, d),
        1 => u.com_w = shift(&u.com_w, d),
        2 => u.u += d,
        _ => {
            if let Some(x) = u.x.first_mut() {
                *x += d
            }
        }
    }
}
fn same_proof(a: &Option<NIFSProof>, b: &Option<NIFSProof>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => {
            a.r == b.r
                && a.opening_point == b.opening_point
                && (a.opening_e.0, a.opening_e.1) == (b.opening_e.0, b.opening_e.1)
                && (a.opening_w.0, a.opening_w.1) == (b.opening_w.0, b.opening_w.1)
        }
        (None, None) => true,
        _ => false,
    }
}
fn n06_run(c: &N06, cx: &mut Cx) -> R {
    nova_digest!(c.digest, n06_case(c, cx))
}
fn n06_case<T: Dg>(c: &N06, cx: &mut Cx) -> R {
    let run = c.h.run::<T>(cx, false)?;
    let n = run.steps.len();
    for lie in &c.lies {
        // mostly not step 0
        let at = if c.at % 8 == 0 { 0 } else { 1 + idx(c.at, n - 1) };
        let other = |k: &u8| *k as usize % n;
        let s = &run.steps[at];
        let mut ivc = run.ivc(at);
        let a = &mut ivc.augmented_circuit;
        let mut p = zk(&s.zk);
        let mut pre = vec![];
        match lie {
            Lie::I(d) => a.i += b(d),
            Lie::Z0(d) => a.z_0.state += b(d),
            Lie::Zi(d) => a.z_i.state += b(d),
            Lie::SwapZ => std::mem::swap(&mut a.z_0, &mut a.z_i),
            Lie::ClaimOf(k) => {
                let o = &run.steps[other(k)];
                (a.i, a.z_i) = (o.i, st(o.zi));
            }
            Lie::StateOf(k) => a.z_i = st(run.steps[other(k)].zi),
            Lie::ProofOf(k) => p = zk(&run.steps[other(k)].zk),
            Lie::ProofElsewhere(d) => {
                let mut h = c.h.clone();
                h.z0 = d.clone();
                if b(d) == run.z0 {
                    continue;
                }
                let o = h.run::<T>(cx, false)?;
                p = zk(&o.steps[at].zk);
            }
            Lie::U(f, d) => field(&mut p.u_i, *f, d.f()),
            Lie::BigU(f, d) => field(&mut p.big_u_i, *f, d.f()),
            Lie::SwapU => std::mem::swap(&mut p.u_i, &mut p.big_u_i),
            Lie::DropX(big) => (if *big { &mut p.big_u_i } else { &mut p.u_i }).x.clear(),
            Lie::PushX(big, d) => (if *big { &mut p.big_u_i } else { &mut p.u_i }).x.push(d.f()),
            Lie::ComT(d) => p.com_t = p.com_t.map(|t| shift(&t, d.f())),
            Lie::Proof(f, d) => {
                if let Some(q) = &mut p.folded_u_proof {
                    let d = d.f::<Fr>();
                    match f % 6 {
                        0 => q.r += d,
                        1 => q.opening_point += d,
                        2 => q.opening_e.1 += d,
                        3 => q.opening_w.1 += d,
                        4 => q.opening_e.0 = (q.opening_e.0 + g1(d)).into(),
                        _ => q.opening_w.0 = (q.opening_w.0 + g1(d)).into(),
                    }
                }
            }
            Lie::SwapOpenings => {
                if let Some(q) = &mut p.folded_u_proof {
                    std::mem::swap(&mut q.opening_e, &mut q.opening_w)
                }
            }
            Lie::NoT => p.com_t = None,
            Lie::NoProof => p.folded_u_proof = None,
            Lie::PartOf(k, part) => {
                let o = zk(&run.steps[other(k)].zk);
                match part % 4 {
                    0 => p.u_i = o.u_i,
                    1 => p.big_u_i = o.big_u_i,
                    2 => p.com_t = o.com_t,
                    _ => p.folded_u_proof = o.folded_u_proof,
                }
            }
            Lie::Again(..) | Lie::AgainBig(..) | Lie::AgainSwapped if at == 0 => continue,
            Lie::Again(what, d) => {
                // a satisfied pair that is not fresh, or whose hash is another
                let d = d.f::<Fr>();
                let (mut u, mut w) = (s.ivc.u_i.clone(), s.ivc.w_i.clone());
                match what % 6 {
                    0 => u.com_e = shift(&u.com_e, d),
                    1 => {
                        w.e.resize(w.e.len().max(1), Fr::zero());
                        w.e[0] += d;
                        u.com_e = run.k.com(&w.e);
                    }
                    2 => u.u += d,
                    3 => u.x[0] += d,
                    4 => u.x.insert(0, d),
                    _ => u.x.clear(),
                }
                let again = IVCProof::new(&u, &w, &s.ivc.big_u_i, &s.ivc.big_w_i);
                p = ivc.prove(&run.k.r1cs, &again, &mut Transcript::<T>::default()).2;
            }
            Lie::AgainBig(what, d) => {
                let (mut u, mut w) = (s.ivc.big_u_i.clone(), s.ivc.big_w_i.clone());
                match what % 5 {
                    k @ 0..=3 => field(&mut u, k, d.f()),
                    _ => {
                        (w, u) = PairR::Relaxed { w: 5, few: vec![], u: d.clone() }.pair(&run.k);
                    }
                }
                let again = IVCProof::new(&s.ivc.u_i, &s.ivc.w_i, &u, &w);
                p = ivc.prove(&run.k.r1cs, &again, &mut Transcript::<T>::default()).2;
            }
            Lie::AgainSwapped => {
                let (_, _, com_t, r, mut t) = {
                    let mut t = Transcript::<T>::default();
                    let (w, i, com_t, r) = NIFS::<T>::prover(&run.k.r1cs, &s.ivc.big_w_i, &s.ivc.w_i, &s.ivc.big_u_i, &s.ivc.u_i, &run.k.scheme, &mut t);
                    (w, i, com_t, r, t)
                };
                let (bu, u) = (&s.ivc.big_u_i, &s.ivc.u_i);
                let term = cross(&run.k.r1cs, bu.u, u.u, &z(&s.ivc.big_w_i.w, &bu.x, bu.u), &z(&s.ivc.w_i.w, &u.x, u.u));
                let w = NIFS::<T>::fold_witness(r, &s.ivc.big_w_i, &s.ivc.w_i, &term);
                let i = NIFS::<T>::verifier(r, &s.ivc.big_u_i, &s.ivc.u_i, &com_t);
                p.folded_u_proof = Some(NIFS::<T>::prove(r, &w, &i, &run.k.scheme, &mut t));
                p.com_t = Some(com_t);
            }
            Lie::Trivial => p = ZkIVCProof::trivial_zk_ivc_proof(&run.trivial.1),
            Lie::Prefix(d) => pre.push(d.clone()),
        }
        let a = &ivc.augmented_circuit;
        let unchanged = a.i == s.i
            && a.z_0.state == run.z0
            && a.z_i.state == s.zi
            && same(&p.u_i, &s.zk.u_i)
            && same(&p.big_u_i, &s.zk.big_u_i)
            && p.com_t == s.zk.com_t
            && same_proof(&p.folded_u_proof, &s.zk.folded_u_proof)
            && pre.is_empty();
        let mut want = unchanged;
        if a.i.is_zero() {
            want = a.z_0.state == a.z_i.state;
            cx.label("claim about step 0");
        } else if !unchanged {
            // a claim and the proof that was made for it: of another step of the history
            want = run.steps.iter().any(|s| {
                a.i == s.i && a.z_0.state == run.z0 && a.z_i.state == s.zi && same(&p.u_i, &s.zk.u_i) && same(&p.big_u_i, &s.zk.big_u_i) && p.com_t == s.zk.com_t
                    && same_proof(&p.folded_u_proof, &s.zk.folded_u_proof) && pre.is_empty()
            });
            if let Lie::PushX(..) = lie {
                // a further public value is no part of the claim; the folding challenge binds it
                want = false;
            }
        }
        let got = ivc.verify(&p, &mut transcript::<T>(&pre));
        let name = format!("{lie:?}");
        let name = name.split('(').next().unwrap();
        cx.label(format!("{name}: {}", match &got {
            Ok(()) => "accepted",
            Err(e) => e.split(": ").last().unwrap(),
        }));
        cx.nt(!want);
        ensure!(got.is_ok() == want, "step {at}, {lie:?}: the verifier says {got:?}");
    }
    Ok(())
}

/// The step circuit's own checks.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Wrong {
    I(Fe),
    Z0(Fe),
    Zi(Fe),
    H(Fe),
    NoH,
    U(u8, Fe),
    NoX,
    Big(u8, Fe),
    BigPush(Fe),
    BigPop,
    NoBig,
    NoT,
    BigOf(u8),
    UOf(u8),
    SwapU,
    BigPair(u64, Fe),
    /// an instance with its own error vector, honestly committed
    Relaxed(u64, Fe),
    /// stored hash and public value changed alike
    HAndX(Fe),
    /// ... and a value of the step as well
    HXAnd(u8, Fe),
    /// the hash of another counter, state, initial state or running instance
    Rehash(u8, Fe),
    /// public values in front or behind
    XPush(bool, Fe),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct StepC {
    h: Hist,
    digest: u8,
    at: u16,
    wrong: Vec<Wrong>,
}
fn step_run(c: &StepC, cx: &mut Cx) -> R {
    nova_digest!(c.digest, step_case(c, cx))
}
fn step_case<T: Dg>(c: &StepC, cx: &mut Cx) -> R {
    let run = c.h.run::<T>(cx, false)?;
    let n = run.steps.len();
    let at = 1 + idx(c.at, n - 1);
    let s = &run.steps[at];
    for wr in &c.wrong {
        let mut a = run.circuit(at);
        let mut u = s.zk.u_i.clone();
        let mut big = Some(s.zk.big_u_i.clone());
        let mut t = s.zk.com_t.clone();
        let bigm = big.as_mut().unwrap();
        match wr {
            Wrong::I(d) => a.i += b(d),
            Wrong::Z0(d) => a.z_0.state += b(d),
            Wrong::Zi(d) => a.z_i.state += b(d),
            Wrong::H(d) => a.h_i = a.h_i.map(|h| h + b(d)),
            Wrong::NoH => a.h_i = None,
            Wrong::U(f, d) => {
                if f % 4 == 1 {
                    continue; // any W will do: it is what the step adds
                }
                field(&mut u, *f, d.f())
            }
            Wrong::NoX => u.x.clear(),
            Wrong::Big(f, d) => field(bigm, *f, d.f()),
            Wrong::BigPush(d) => bigm.x.push(d.f()),
            Wrong::BigPop => {
                bigm.x.pop();
            }
            Wrong::NoBig => big = None,
            Wrong::NoT => t = None,
            Wrong::BigOf(k) => *bigm = run.steps[*k as usize % n].zk.big_u_i.clone(),
            Wrong::UOf(k) => u = run.steps[*k as usize % n].zk.u_i.clone(),
            Wrong::SwapU => std::mem::swap(&mut u, bigm),
            Wrong::BigPair(w, d) => *bigm = PairR::Relaxed { w: *w, few: vec![], u: d.clone() }.pair(&run.k).1,
            Wrong::HAndX(d) => {
                a.h_i = a.h_i.map(|h| h + b(d));
                u.x[0] = to_fr(a.h_i.unwrap());
            }
            Wrong::HXAnd(f, d) => {
                // stored hash and public value fit, but are those of something else
                match f % 4 {
                    0 => a.i += b(d),
                    1 => a.z_0.state += b(d),
                    2 => a.z_i.state += b(d),
                    _ => field(bigm, (f / 4) % 4, d.f()),
                }
                a.h_i = a.h_i.map(|h| h + Fq::one());
                u.x[0] = to_fr(a.h_i.unwrap());
            }
            Wrong::Rehash(f, d) => {
                let (mut i, mut z0, mut zi, mut o) = (a.i, a.z_0.state, a.z_i.state, bigm.clone());
                match f % 4 {
                    0 => i += b(d),
                    1 => z0 += b(d),
                    2 => zi += b(d),
                    _ => field(&mut o, (f / 4) % 4, d.f()),
                }
                let h = AugmentedCircuit::<T, StepF>::hash_io(i, &st(z0), &st(zi), &o);
                a.h_i = Some(h);
                u.x[0] = to_fr(h);
            }
            Wrong::XPush(front, d) => {
                if !*front {
                    continue; // further public values are bound by the challenge only
                }
                u.x.insert(0, d.f());
            }
            Wrong::Relaxed(w, d) => {
                let x = u.x.clone();
                u = PairR::Relaxed { w: *w, few: vec![], u: d.clone() }.pair(&run.k).1;
                u.x = x;
            }
        }
        let o = run.circuit(at);
        let fresh = u.com_e == run.trivial.1.com_e && u.u.is_one();
        let unchanged = a.i == o.i
            && a.z_0.state == o.z_0.state
            && a.z_i.state == o.z_i.state
            && a.h_i == o.h_i
            && u.x == s.zk.u_i.x
            && fresh
            && big.as_ref().is_some_and(|x| same(x, &s.zk.big_u_i))
            && t.is_some();
        // at step 0 nothing is folded and nothing is checked
        if a.i.is_zero() {
            continue;
        }
        let before = (a.i, a.z_0.state, a.z_i.state, a.h_i);
        let got = a.run(&u, big.as_ref(), &s.ivc.w_i, t.as_ref());
        let name = format!("{wr:?}");
        cx.label(format!("{}: {}", name.split('(').next().unwrap(), got.as_ref().err().map_or("accepted", |s| s.trim())));
        if unchanged {
            ensure!(got.is_ok(), "step {at}: an honest step is refused ({wr:?}): {got:?}");
        } else {
            cx.nt(true);
            ensure!(got.is_err(), "step {at}: the step circuit accepts a step with {wr:?}");
            ensure!(
                (a.i, a.z_0.state, a.z_i.state, a.h_i) == before && a.z_i1.is_none() && a.h_i1.is_none(),
                "step {at}: a refused step changes the state"
            );
        }
    }
    Ok(())
}
fn n06() -> Check {
    Check {
        id: "N06",
        assumptions: vec!["pairing and curve arithmetic of ark-bls12-381", "no accidental 64-bit collision of challenges"],
        subs: vec![
            Box::new(Sub {
                name: "claims",
                rule: "an honest history of two to five steps and one step of it; up to six lies about the claim or in the proof: changed values, parts of other steps and histories, missing parts, proofs made again for a wrong fresh or running instance. The verifier accepts only what was proved (and step 0 only the initial state). Non-trivial: a lie that has to be rejected.",
                quick: 1700,
                thorough: 25000,
                examples: [9, 17, 18, 33, 40, 66]
                    .map(|n| N06 {
                        h: long(n),
                        digest: n as u8,
                        at: 65001,
                        lies: (0..16u8)
                            .map(|j| Lie::ClaimOf((n as u8).wrapping_sub(j)))
                            .chain((0..16u8).flat_map(|j| [Lie::ProofOf((n as u8).wrapping_sub(j)), Lie::I(Fe::P2(j)), Lie::I(Fe::S(16 * j as u32))]))
                            .chain([Lie::Zi(Fe::One), Lie::U(1, Fe::One), Lie::BigU(2, Fe::One), Lie::Again(1, Fe::One), Lie::Again(3, Fe::One), Lie::AgainBig(4, Fe::S(3)), Lie::ComT(Fe::One)])
                            .collect(),
                    })
                    .into(),
                strat: || {
                    let lie = prop_oneof![
                        2 => fe_nz().prop_map(Lie::I),
                        2 => fe_nz().prop_map(Lie::Z0),
                        3 => fe_nz().prop_map(Lie::Zi),
                        1 => Just(Lie::SwapZ),
                        3 => any::<u8>().prop_map(Lie::ClaimOf),
                        2 => any::<u8>().prop_map(Lie::StateOf),
                        3 => any::<u8>().prop_map(Lie::ProofOf),
                        1 => fe().prop_map(Lie::ProofElsewhere),
                        4 => (0u8..4, fe_nz()).prop_map(|(a, b)| Lie::U(a, b)),
                        4 => (0u8..4, fe_nz()).prop_map(|(a, b)| Lie::BigU(a, b)),
                        1 => Just(Lie::SwapU),
                        1 => any::<bool>().prop_map(Lie::DropX),
                        1 => (any::<bool>(), fe()).prop_map(|(a, b)| Lie::PushX(a, b)),
                        2 => fe_nz().prop_map(Lie::ComT),
                        5 => (0u8..6, fe_nz()).prop_map(|(a, b)| Lie::Proof(a, b)),
                        1 => Just(Lie::SwapOpenings),
                        1 => Just(Lie::NoT),
                        1 => Just(Lie::NoProof),
                        3 => (any::<u8>(), 0u8..4).prop_map(|(a, b)| Lie::PartOf(a, b)),
                        6 => (0u8..6, fe_nz()).prop_map(|(a, b)| Lie::Again(a, b)),
                        4 => (0u8..5, fe_nz()).prop_map(|(a, b)| Lie::AgainBig(a, b)),
                        1 => Just(Lie::AgainSwapped),
                        1 => Just(Lie::Trivial),
                        1 => fe().prop_map(Lie::Prefix),
                    ];
                    (hist(2..=5), 0u8..6, any::<u16>(), prop::collection::vec(lie, 1..7)).prop_map(|(h, digest, at, lies)| N06 { h, digest, at, lies }).boxed()
                },
                run: n06_run,
            }),
            Box::new(Sub {
                name: "steps",
                rule: "the step circuit at one step of an honest history, given a wrong, foreign or missing instance, hash, counter or state: it refuses and its state stays. Non-trivial: something it has to refuse.",
                quick: 1200,
                thorough: 20000,
                examples: vec![],
                strat: || {
                    let wrong = prop_oneof![
                        1 => fe_nz().prop_map(Wrong::I),
                        1 => fe_nz().prop_map(Wrong::Z0),
                        1 => fe_nz().prop_map(Wrong::Zi),
                        1 => fe_nz().prop_map(Wrong::H),
                        1 => Just(Wrong::NoH),
                        4 => (0u8..4, fe_nz()).prop_map(|(a, b)| Wrong::U(a, b)),
                        1 => Just(Wrong::NoX),
                        2 => fe_nz().prop_map(Wrong::HAndX),
                        2 => (0u8..16, fe_nz()).prop_map(|(a, b)| Wrong::HXAnd(a, b)),
                        2 => (0u8..16, fe_nz()).prop_map(|(a, b)| Wrong::Rehash(a, b)),
                        1 => (any::<bool>(), fe()).prop_map(|(a, b)| Wrong::XPush(a, b)),
                        4 => (0u8..4, fe_nz()).prop_map(|(a, b)| Wrong::Big(a, b)),
                        1 => fe().prop_map(Wrong::BigPush),
                        1 => Just(Wrong::BigPop),
                        1 => Just(Wrong::NoBig),
                        1 => Just(Wrong::NoT),
                        2 => any::<u8>().prop_map(Wrong::BigOf),
                        2 => any::<u8>().prop_map(Wrong::UOf),
                        1 => Just(Wrong::SwapU),
                        1 => (any::<u64>(), fe()).prop_map(|(a, b)| Wrong::BigPair(a, b)),
                        2 => (any::<u64>(), fe_nz()).prop_map(|(a, b)| Wrong::Relaxed(a, b)),
                    ];
                    (hist(2..=5), 0u8..6, any::<u16>(), prop::collection::vec(wrong, 1..8)).prop_map(|(h, digest, at, wrong)| StepC { h, digest, at, wrong }).boxed()
                },
                run: step_run,
            }),
        ],
    }
}

// ---------------------------------------------------------------- N07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Var {
    /// which instance, field, index
    Field(bool, u8, u16, Fe),
    Neg(bool, bool),
    SwapComs(bool),
    /// commitment of one instance exchanged with the other's
    Cross(bool),
    CrossU,
    CrossX,
    Order,
    Push(bool, Fe),
    Pop(bool),
    /// the last public value of the first becomes the first of the second
    Move,
    /// the last public value of the second and its scalar exchanged
    XU(bool),
    /// another witness: another cross term
    W(bool, u16, Fe),
    Prefix(Fe),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bind {
    /// zero matrices make the cross term constant
    flat: bool,
    shape: Shape,
    a: PairR,
    b: PairR,
    prefix: Vec<Fe>,
    vars: Vec<Var>,
    digest: u8,
}
fn bind_run(c: &Bind, cx: &mut Cx) -> R {
    nova_digest!(c.digest, bind_case(c, cx))
}
fn bind_case<T: Dg>(c: &Bind, cx: &mut Cx) -> R {
    let mut k = c.shape.setup();
    if c.flat {
        for m in [&mut k.r1cs.matrix_a, &mut k.r1cs.matrix_b, &mut k.r1cs.matrix_c] {
            m.iter_mut().for_each(|r| r.iter_mut().for_each(|v| *v = Fr::zero()));
        }
        cx.label("constant cross term");
    }
    let (a, b) = (c.a.pair(&k), c.b.pair(&k));
    let run = |a: &(FWitness, FInstance), b: &(FWitness, FInstance), prefix: &[Fe]| {
        let mut t = transcript::<T>(prefix);
        let (w, _, com_t, r) = NIFS::<T>::prover(&k.r1cs, &a.0, &b.0, &a.1, &b.1, &k.scheme, &mut t);
        (com_t, r, w, t)
    };
    let (com_t, r, w, mut t) = run(&a, &b, &c.prefix);
    let (t2, r2, ..) = run(&a, &b, &c.prefix);
    ensure!(t2 == com_t && r2 == r, "the same folding gives another challenge");
    // the verifier derives the same
    let fi = NIFS::<T>::verifier(r, &a.1, &b.1, &com_t);
    let proof = NIFS::<T>::prove(r, &w, &fi, &k.scheme, &mut t);
    let got = NIFS::<T>::verify(&proof, &a.1, &b.1, &fi, &com_t, &k.scheme, &mut transcript::<T>(&c.prefix));
    ensure!(got.is_ok(), "the verifier derives another challenge: {got:?}");
    let mut seen = vec![(r, "the original".to_string())];
    for v in &c.vars {
        let (mut x, mut y, mut pre) = (a.clone(), b.clone(), c.prefix.clone());
        match v {
            Var::Field(first, f, j, d) => {
                let i = if *first { &mut x.1 } else { &mut y.1 };
                let d = d.f::<Fr>();
                match f % 4 {
                    3 if !i.x.is_empty() => {
                        let n = i.x.len();
                        i.x[idx(*j, n)] += d
                    }
                    3 => continue,
                    f => field(i, f, d),
                }
            }
            Var::Neg(first, e) => {
                let i = if *first { &mut x.1 } else { &mut y.1 };
                let c = if *e { &mut i.com_e } else { &mut i.com_w };
                c.0 = -c.0;
            }
            Var::SwapComs(first) => {
                let i = if *first { &mut x.1 } else { &mut y.1 };
                std::mem::swap(&mut i.com_e, &mut i.com_w);
            }
            Var::Cross(e) => {
                if *e {
                    std::mem::swap(&mut x.1.com_e, &mut y.1.com_e)
                } else {
                    std::mem::swap(&mut x.1.com_w, &mut y.1.com_w)
                }
            }
            Var::CrossU => std::mem::swap(&mut x.1.u, &mut y.1.u),
            Var::CrossX => std::mem::swap(&mut x.1.x, &mut y.1.x),
            Var::Order => std::mem::swap(&mut x, &mut y),
            Var::Push(first, d) => (if *first { &mut x.1 } else { &mut y.1 }).x.push(d.f()),
            Var::Pop(first) => {
                (if *first { &mut x.1 } else { &mut y.1 }).x.pop();
            }
            Var::Move => {
                if let Some(v) = x.1.x.pop() {
                    y.1.x.insert(0, v)
                }
            }
            Var::XU(first) => {
                let i = if *first { &mut x.1 } else { &mut y.1 };
                if let Some(v) = i.x.last_mut() {
                    std::mem::swap(v, &mut i.u)
                }
            }
            Var::W(first, j, d) => {
                let w = &mut (if *first { &mut x.0 } else { &mut y.0 }).w;
                let n = w.len();
                if n > 0 {
                    w[idx(*j, n)] += d.f::<Fr>();
                }
            }
            Var::Prefix(d) => pre.push(d.clone()),
        }
        let (ct, r2, ..) = run(&x, &y, &pre);
        let unchanged = same(&x.1, &a.1) && same(&y.1, &b.1) && ct == com_t && pre.len() == c.prefix.len();
        let name = format!("{v:?}");
        let name = name.split('(').next().unwrap();
        if unchanged {
            ensure!(r2 == r, "{v:?}: the same statement gives another challenge");
            continue;
        }
        cx.nt(true);
        cx.label(name.to_string());
        ensure!(r2 != r, "{v:?} does not change the challenge");
        ensure!(proof.r == r, "harness");
        // the verifier does not take the old one
        let fi2 = NIFS::<T>::verifier(r, &x.1, &y.1, &ct);
        let got = NIFS::<T>::verify(&proof, &x.1, &y.1, &fi2, &ct, &k.scheme, &mut transcript::<T>(&pre));
        ensure!(got.is_err(), "{v:?}: the verifier takes the challenge of another statement");
        seen.push((r2, name.to_string()));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HashC {
    i: Fe,
    z: [Fe; 2],
    u: [Fe; 3],
    x: Vec<Fe>,
    d: Fe,
    digest: u8,
}
fn hash_run(c: &HashC, cx: &mut Cx) -> R {
    nova_digest!(c.digest, hash_case(c, cx))
}
fn hash_case<T: Dg>(c: &HashC, cx: &mut Cx) -> R {
    #[derive(Clone, PartialEq)]
    struct A {
        i: Fq,
        z0: Fq,
        zi: Fq,
        e: Fr,
        w: Fr,
        u: Fr,
        x: Vec<Fr>,
    }
    let h = |a: &A| {
        let u = FInstance { com_e: KzgCommitment(g1(a.e)), u: a.u, com_w: KzgCommitment(g1(a.w)), x: a.x.clone() };
        AugmentedCircuit::<T, StepF>::hash_io(a.i, &st(a.z0), &st(a.zi), &u)
    };
    let a = A { i: b(&c.i), z0: b(&c.z[0]), zi: b(&c.z[1]), e: c.u[0].f(), w: c.u[1].f(), u: c.u[2].f(), x: c.x.iter().map(Fe::f).collect() };
    let (d, dq) = (c.d.f::<Fr>(), b(&c.d));
    let base = h(&a);
    ensure!(h(&a) == base, "the same values hash differently");
    let mut all: Vec<(&str, A)> = vec![("original", a.clone())];
    let mut add = |name: &'static str, f: &dyn Fn(&mut A)| {
        let mut v = a.clone();
        f(&mut v);
        all.push((name, v));
    };
    add("i", &|a| a.i += dq);
    add("z0", &|a| a.z0 += dq);
    add("zi", &|a| a.zi += dq);
    add("com_e", &|a| a.e += d);
    add("com_w", &|a| a.w += d);
    add("u", &|a| a.u += d);
    add("-i", &|a| a.i = -a.i);
    add("-z0", &|a| a.z0 = -a.z0);
    add("-zi", &|a| a.zi = -a.zi);
    add("-com_e", &|a| a.e = -a.e);
    add("-com_w", &|a| a.w = -a.w);
    add("-u", &|a| a.u = -a.u);
    add("i and z0 exchanged", &|a| std::mem::swap(&mut a.i, &mut a.z0));
    add("z0 and zi exchanged", &|a| std::mem::swap(&mut a.z0, &mut a.zi));
    add("i and zi exchanged", &|a| std::mem::swap(&mut a.i, &mut a.zi));
    add("commitments exchanged", &|a| std::mem::swap(&mut a.e, &mut a.w));
    add("i + d, zi - d", &|a| {
        a.i += dq;
        a.zi -= dq
    });
    add("com_e + d, com_w - d", &|a| {
        a.e += d;
        a.w -= d
    });
    add("one x more", &|a| a.x.push(d));
    add("zero x more", &|a| a.x.push(Fr::zero()));
    add("zero x before", &|a| a.x.insert(0, Fr::zero()));
    add("i + 2^256", &|a| a.i += Fq::from(2u64).pow([256u64]));
    add("zi + r", &|a| a.zi += Fq::from_le_bytes_mod_order(&Fr::MODULUS.to_bytes_le()));
    add("z0 + r", &|a| a.z0 += Fq::from_le_bytes_mod_order(&Fr::MODULUS.to_bytes_le()));
    if !a.x.is_empty() {
        let n = a.x.len();
        add("no x", &|a| a.x.clear());
        add("one x less", &|a| {
            a.x.pop();
        });
        add("first x less", &|a| {
            a.x.remove(0);
        });
        add("first x", &|a| a.x[0] += d);
        add("last x", &|a| a.x[n - 1] += d);
        add("-x", &|a| a.x[0] = -a.x[0]);
        add("x reversed", &|a| a.x.reverse());
        add("u and x exchanged", &|a| std::mem::swap(&mut a.u, &mut a.x[0]));
        add("x twice", &|a| a.x.push(a.x[n - 1]));
    }
    cx.nt(true);
    cx.label(if a.x.len() < 8 { format!("{} public values", a.x.len()) } else { "many public values".into() });
    for j in 0..a.x.len() {
        let mut v = a.clone();
        v.x[j] += d;
        all.push(("an x", v));
        if j > 0 {
            let mut v = a.clone();
            v.x.swap(j - 1, j);
            all.push(("two x exchanged", v));
            let mut v = a.clone();
            v.x[0] += d;
            v.x[j] -= d;
            all.push(("two x with the same sum", v));
        }
    }
    // single bits of the numbers
    let bit = |n: u32| Fq::from(2u64).pow([n as u64]);
    for n in [0, 1, 7, 8, 63, 64, 128, 255, 256, 300, 379] {
        let mut v = a.clone();
        v.i += bit(n);
        all.push(("bit of i", v));
        let mut v = a.clone();
        v.zi += bit(n);
        all.push(("bit of zi", v));
        if n < 255 {
            let f = Fr::from(2u64).pow([n as u64]);
            let mut v = a.clone();
            v.u += f;
            all.push(("bit of u", v));
            if let Some(j) = a.x.len().checked_sub(1) {
                let mut v = a.clone();
                v.x[n as usize % (j + 1)] += f;
                all.push(("bit of x", v));
            }
        }
        let mut v = a.clone();
        v.z0 += bit(n);
        all.push(("bit of z0", v));
    }
    let hs: Vec<Fq> = all.iter().map(|(_, v)| h(v)).collect();
    for i in 0..all.len() {
        for j in 0..i {
            ensure!(hs[i] != hs[j] || all[i].1 == all[j].1, "the hash is the same for: {} / {}", all[i].0, all[j].0);
        }
    }
    // and with another digest it is another
    let other = AugmentedCircuit::<Salted<77>, StepF>::hash_io(
        a.i,
        &st(a.z0),
        &st(a.zi),
        &FInstance { com_e: KzgCommitment(g1(a.e)), u: a.u, com_w: KzgCommitment(g1(a.w)), x: a.x.clone() },
    );
    ensure!(other != base, "the hash does not depend on the digest");
    Ok(())
}

/// Prover, verifier and step circuit agree on the challenge.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Agree {
    shape: Shape,
    w: PairR,
    big: PairR,
    i: Fe,
    z: [Fe; 2],
    f: StepF,
    digest: u8,
    d: Fe,
}
fn agree_run(c: &Agree, cx: &mut Cx) -> R {
    nova_digest!(c.digest, agree_case(c, cx))
}
fn agree_case<T: Dg>(c: &Agree, cx: &mut Cx) -> R {
    let k = c.shape.setup();
    let (w, mut u) = c.w.pair(&k);
    let (big_w, big_u) = c.big.pair(&k);
    let trivial = create_trivial_pair(k.r1cs.num_io, k.r1cs.num_vars, &k.scheme).1;
    let (i, z0, zi) = (b(&c.i), b(&c.z[0]), b(&c.z[1]));
    if i.is_zero() {
        return cx.skip();
    }
    let h = AugmentedCircuit::<T, StepF>::hash_io(i, &st(z0), &st(zi), &big_u);
    // a fresh instance about this running instance
    u.com_e = trivial.com_e.clone();
    u.u = Fr::one();
    if u.x.is_empty() {
        u.x.push(Fr::zero());
    }
    u.x[0] = to_fr(h);
    let fw = FWitness { e: vec![], w: w.w.clone() };
    let (_, folded, com_t, r) = NIFS::<T>::prover(&k.r1cs, &fw, &big_w, &u, &big_u, &k.scheme, &mut Transcript::<T>::default());
    let mut a = AugmentedCircuit::<T, StepF> {
        f_circuit: c.f.clone(),
        i,
        trivial_instance: trivial,
        z_0: st(z0),
        z_i: st(zi),
        z_i1: None,
        h_i: Some(h),
        h_i1: None,
        phantom_data_t: Default::default(),
    };
    let z1 = c.f.run(&st(zi), &fw);
    cx.nt(nonzero(&big_w.w));
    cx.label_if(u.x.len() > 1, "several public values");
    cx.label_if(!big_u.u.is_zero() && !big_u.u.is_one(), "running scalar not 0 or 1");
    let want = AugmentedCircuit::<T, StepF>::hash_io(i + Fq::one(), &st(z0), &z1, &folded);
    let got = a.run(&u, Some(&big_u), &fw, Some(&com_t));
    ensure!(got == Ok(want), "the step circuit folds with another challenge than the prover's: {got:?}");
    let v = NIFS::<T>::verifier(r, &u, &big_u, &com_t);
    ensure!(same(&v, &folded), "the verifier folds to another instance");
    // another cross-term commitment: another hash
    let t2 = shift(&com_t, c.d.f());
    if t2 != com_t {
        let got = a.run(&u, Some(&big_u), &fw, Some(&t2));
        ensure!(got.is_ok() && got != Ok(want), "the step circuit's hash does not depend on the cross term: {got:?}");
    }
    Ok(())
}
/// So many hashes that one which keeps few bits repeats itself.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lots {
    seed: u64,
    /// 2^log of them
    log: u8,
    /// what changes
    what: u8,
    digest: u8,
}
fn lots_run(c: &Lots, cx: &mut Cx) -> R {
    nova_digest!(c.digest, lots_case(c, cx))
}
fn lots_case<T: Dg>(c: &Lots, cx: &mut Cx) -> R {
    cx.nt(true);
    let f = |k: u64| Fe::R(c.seed ^ k);
    let mut u = FInstance { com_e: KzgCommitment(g1(f(1).f())), u: f(2).f(), com_w: KzgCommitment(g1(f(3).f())), x: vec![f(4).f(), f(5).f()] };
    let (mut i, mut z0, mut zi) = (b(&f(6)), st(b(&f(7))), st(b(&f(8))));
    let (mut and, mut or) = ([u64::MAX; 6], [0u64; 6]);
    let mut got = Vec::new();
    for k in 0..1u64 << c.log {
        match c.what % 6 {
            0 => i += Fq::one(),
            1 => z0.state += Fq::one(),
            2 => zi.state += Fq::one(),
            3 => u.u += Fr::one(),
            4 => u.x[0] += Fr::one(),
            _ => u.x[1] += Fr::one(),
        }
        let h = AugmentedCircuit::<T, StepF>::hash_io(i, &z0, &zi, &u).into_bigint().0;
        for j in 0..6 {
            and[j] &= h[j];
            or[j] |= h[j];
        }
        // two limbs added: as good as any 64 bits of a hash
        got.push((h[0].wrapping_add(h[1].rotate_left(17)), k));
    }
    let bits: u32 = (0..6).map(|j| (or[j] & !and[j]).count_ones()).sum();
    ensure!(bits >= 120, "only {bits} bits of the step hash vary");
    got.sort_unstable();
    let same = got.windows(2).find(|w| w[0].0 == w[1].0);
    ensure!(same.is_none(), "two step hashes agree: {:?}", same.map(|w| (w[0].1, w[1].1)));
    Ok(())
}
fn n07() -> Check {
    Check {
        id: "N07",
        assumptions: vec!["the digest and the 64-bit challenges have no accidental collision"],
        subs: vec![
            Box::new(Sub {
                name: "challenge",
                rule: "the folding challenge of two generated pairs, again after changes of one commitment, scalar, public value, their order and boundaries, or the cross term, also where the matrices are zero and so the cross term stays; the verifier must refuse the old challenge for the new statement. Non-trivial: a changed statement.",
                quick: 1800,
                thorough: 40000,
                examples: bigs()
                    .into_iter()
                    .enumerate()
                    .map(|(n, shape)| Bind {
                        flat: n % 2 == 0,
                        shape,
                        a: PairR::Relaxed { w: n as u64, few: vec![], u: Fe::R(n as u64) },
                        b: PairR::Relaxed { w: 50 + n as u64, few: vec![], u: Fe::R(30 + n as u64) },
                        prefix: vec![],
                        vars: (0..16u16)
                            .flat_map(|j| [Var::Field(j % 3 == 0, 3, j * 4096 + 4095, Fe::One), Var::Field(j % 2 == 0, (j % 3) as u8, 0, Fe::P2(16 * j as u8 + 3))])
                            .chain([Var::Field(true, 3, 65535, Fe::One), Var::Field(false, 3, 65535, Fe::One), Var::Move, Var::Pop(true), Var::Pop(false)])
                            .collect(),
                        digest: n as u8,
                    })
                    .collect(),
                strat: || {
                    let u = any::<u16>;
                    let f = any::<bool>;
                    let var = prop_oneof![
                        8 => (f(), 0u8..4, u(), fe_nz()).prop_map(|(a, b, c, d)| Var::Field(a, b, c, d)),
                        1 => (f(), f()).prop_map(|(a, b)| Var::Neg(a, b)),
                        1 => f().prop_map(Var::SwapComs),
                        1 => f().prop_map(Var::Cross),
                        1 => Just(Var::CrossU),
                        1 => Just(Var::CrossX),
                        1 => Just(Var::Order),
                        1 => (f(), fe()).prop_map(|(a, b)| Var::Push(a, b)),
                        1 => f().prop_map(Var::Pop),
                        1 => Just(Var::Move),
                        1 => f().prop_map(Var::XU),
                        2 => (f(), u(), fe_nz()).prop_map(|(a, b, c)| Var::W(a, b, c)),
                        1 => fe().prop_map(Var::Prefix),
                    ];
                    ((f(), shape(), full_pair(), full_pair()), (prefix(), prop::collection::vec(var, 1..8), 0u8..6))
                        .prop_map(|((flat, shape, a, b), (prefix, vars, digest))| Bind { flat, shape, a, b, prefix, vars, digest })
                        .boxed()
                },
                run: bind_run,
            }),
            Box::new(Sub {
                name: "hash",
                rule: "the step hash of generated values against some 60 near-by values (each part changed, negated, exchanged, with more or fewer public values, single bits): all different. Always non-trivial.",
                quick: 1200,
                thorough: 30000,
                examples: [9u64, 16, 17, 33, 65, 100]
                    .map(|n| HashC { i: Fe::R(n), z: [Fe::R(n + 1), Fe::R(n + 2)], u: [Fe::R(n + 3), Fe::R(n + 4), Fe::R(n + 5)], x: (0..n).map(|j| Fe::R(1000 * n + j)).collect(), d: Fe::S(3), digest: n as u8 })
                    .into(),
                strat: || {
                    (fe(), [fe(), fe()], [fe(), fe(), fe()], prop::collection::vec(fe(), 0..7), fe_nz(), 0u8..6)
                        .prop_map(|(i, z, u, x, d, digest)| HashC { i, z, u, x, d, digest })
                        .boxed()
                },
                run: hash_run,
            }),
            Box::new(Sub {
                name: "lots",
                rule: "step hashes of 2^14 values that differ in one number (2^19 for the examples) are all different, and at least 120 bits of them vary. Every case is non-trivial.",
                quick: 30,
                thorough: 1000,
                examples: (0..6).map(|what| Lots { seed: 9, log: 19, what, digest: what }).collect(),
                strat: || (any::<u64>(), 0u8..6, 0u8..6).prop_map(|(seed, what, digest)| Lots { seed, log: 14, what, digest }).boxed(),
                run: lots_run,
            }),
            Box::new(Sub {
                name: "agreement",
                rule: "prover, verifier and step circuit fold a fresh instance into a generated running instance: the same folded instance, and the step's hash is of that. Non-trivial: the running witness is not zero.",
                quick: 2000,
                thorough: 50000,
                examples: bigs()
                    .into_iter()
                    .enumerate()
                    .map(|(n, shape)| Agree {
                        shape,
                        w: PairR::Fresh { w: n as u64, few: vec![] },
                        big: PairR::Relaxed { w: 50 + n as u64, few: vec![], u: Fe::R(30 + n as u64) },
                        i: Fe::R(n as u64),
                        z: [Fe::R(2), Fe::R(3)],
                        f: StepF(vec![Op::SumW]),
                        digest: n as u8,
                        d: Fe::One,
                    })
                    .collect(),
                strat: || {
                    (shape(), full_pair(), full_pair(), fe_nz(), [fe(), fe()], stepf(), 0u8..6, fe())
                        .prop_map(|(shape, w, big, i, z, f, digest, d)| Agree { shape, w, big, i, z, f, digest, d })
                        .boxed()
                },
                run: agree_run,
            }),
        ],
    }
}

// ---------------------------------------------------------------- V03

/// Any point of the curve.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pt {
    G(Fe),
    /// on the curve, hardly ever in the subgroup
    X(Fe, bool),
}
impl Pt {
    fn g(&self) -> G1Affine {
        match self {
            Pt::G(x) => g1(x.f()),
            Pt::X(x, s) => {
                let mut x = b(x);
                loop {
                    if let Some(p) = G1Affine::get_point_from_x_unchecked(x, *s) {
                        return p;
                    }
                    x += Fq::one();
                }
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inst {
    e: Pt,
    w: Pt,
    u: Fe,
    x: Vec<Fe>,
}
impl Inst {
    fn i(&self) -> FInstance {
        FInstance { com_e: KzgCommitment(self.e.g()), u: self.u.f(), com_w: KzgCommitment(self.w.g()), x: self.x.iter().map(Fe::f).collect() }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct V03 {
    shape: Shape,
    inst: [Inst; 3],
    com_t: Option<Pt>,
    /// r and opening point: as they have to be, or not
    fit: u8,
    proof: Option<(Fe, Fe, Pt, Fe, Pt, Fe)>,
    prefix: Vec<Fe>,
    i: Fe,
    z: [Fe; 2],
    hash: bool,
    h: Option<Fe>,
    parts: u8,
    w: PolyR,
    e: PolyR,
    f: StepF,
    digest: u8,
}
fn v03_run(c: &V03, cx: &mut Cx) -> R {
    nova_digest!(c.digest, v03_case(c, cx))
}
fn v03_case<T: Dg>(c: &V03, cx: &mut Cx) -> R {
    let k = c.shape.setup();
    let [mut i1, i2, mut i3] = [0, 1, 2].map(|n| c.inst[n].i());
    let com_t = c.com_t.as_ref().map(|p| KzgCommitment(p.g()));
    let (iz, z0, zi) = (b(&c.i), st(b(&c.z[0])), st(b(&c.z[1])));
    let mut h = c.h.as_ref().map(b);
    let trivial = create_trivial_pair(k.r1cs.num_io, k.r1cs.num_vars, &k.scheme).1;
    if c.hash {
        // so that the later checks are reached
        let x = AugmentedCircuit::<T, StepF>::hash_io(iz, &z0, &zi, &i2);
        h = Some(x);
        i1.x.resize(i1.x.len().max(1), Fr::zero());
        i1.x[0] = to_fr(x);
        i1.u = Fr::one();
        i1.com_e = trivial.com_e.clone();
        cx.label("hash fits");
    }
    let proof = c.proof.as_ref().map(|(r, p, a, x, d, y)| {
        let mut q = NIFSProof { r: r.f(), opening_point: p.f(), opening_e: KzgOpening(a.g(), x.f()), opening_w: KzgOpening(d.g(), y.f()) };
        if c.fit & 1 > 0 {
            if let Some(t) = &com_t {
                // the challenge of this statement, read off the code under test
                q.r = challenge::<T>(&k, &i1, &i2, t, &c.prefix).unwrap_or(q.r);
                if c.fit & 2 > 0 {
                    i3 = NIFS::<T>::verifier(q.r, &i1, &i2, t);
                }
                cx.label("challenge fits");
            }
        }
        q
    });
    cx.nt(true);
    let answer = |what: &str, r: Result<bool, String>| -> Result<bool, Fail> {
        r.map_err(|m| format!("{what} crashes: {m}").into())
    };
    if let (Some(p), Some(t)) = (&proof, &com_t) {
        let ok = answer("the folding verifier", catch(|| NIFS::<T>::verify(p, &i1, &i2, &i3, t, &k.scheme, &mut transcript::<T>(&c.prefix)).is_ok()))?;
        cx.label(if ok { "folding accepted" } else { "folding rejected" });
        let _ = answer("the challenge check", catch(|| NIFS::<T>::verify_challenge(p.r, i1.u, i2.u, t, &mut transcript::<T>(&c.prefix)).is_ok()))?;
        let _ = answer("the opening check", catch(|| NIFS::<T>::verify_opening(p, &i3, &k.scheme, &mut transcript::<T>(&c.prefix)).is_ok()))?;
        // at the point it asks for
        let none = FWitness { e: vec![], w: vec![] };
        let mut q = p.clone();
        q.opening_point = NIFS::<T>::prove(q.r, &none, &i3, &k.scheme, &mut transcript::<T>(&c.prefix)).opening_point;
        let ok = answer("the opening check", catch(|| NIFS::<T>::verify_opening(&q, &i3, &k.scheme, &mut transcript::<T>(&c.prefix)).is_ok()))?;
        cx.label(if ok { "openings accepted" } else { "openings rejected" });
    }
    let circuit = || AugmentedCircuit::<T, StepF> {
        f_circuit: c.f.clone(),
        i: iz,
        trivial_instance: trivial.clone(),
        z_0: z0.clone(),
        z_i: zi.clone(),
        z_i1: None,
        h_i: h,
        h_i1: None,
        phantom_data_t: Default::default(),
    };
    let size = k.rows().max(k.r1cs.num_vars);
    let zkp = ZkIVCProof { u_i: i1.clone(), big_u_i: i2.clone(), com_t: com_t.clone(), folded_u_proof: proof.clone() };
    let mut ivc = IVC::<T, StepF> { scheme: KzgScheme::new(Srs::new_from_secret(k.s, size)), augmented_circuit: circuit() };
    let ok = answer("the incremental verifier", catch(|| ivc.verify(&zkp, &mut transcript::<T>(&c.prefix)).is_ok()))?;
    cx.label(if ok { "claim accepted" } else { "claim rejected" });
    ensure!(ok == (zi.state == z0.state) || !iz.is_zero(), "a claim about step 0 is judged {ok}");
    let mut fw = FWitness { e: c.e.coeffs(), w: c.w.coeffs() };
    let big = (c.parts & 1 > 0).then_some(&i2);
    let t = if c.parts & 2 > 0 { com_t.as_ref() } else { None };
    let mut a = circuit();
    let ok = answer("the step circuit", catch(|| a.run(&i1, big, &fw, t).is_ok()))?;
    cx.label(if ok { "step taken" } else { "step refused" });
    if c.fit & 1 > 0 {
        fw.w.resize(k.r1cs.num_vars, Fr::one());
        i1.x.resize(k.r1cs.num_io, Fr::one());
    }
    let wit = [fw.w.len() == k.r1cs.num_vars, i1.x.len() == k.r1cs.num_io];
    cx.label_if(wit == [true, true], "lengths fit");
    let ok = answer("the satisfaction check", catch(|| is_r1cs_satisfied(&k.r1cs, &i1, &fw, &k.scheme).is_ok()))?;
    ensure!(ok == satisfied(&k, &i1, &fw).is_ok(), "the satisfaction check says {ok} for an arbitrary pair");
    Ok(())
}
/// The challenge of a statement, from the prover: it feeds what the instances say.
fn challenge<T: Dg>(k: &Setup, i1: &FInstance, i2: &FInstance, com_t: &KzgCommitment, prefix: &[Fe]) -> Option<Fr> {
    // a structure whose cross term is the constant behind com_t is not at hand; so only
    // where the cross-term commitment is that of no constraint
    if *com_t != k.com(&[]) {
        return None;
    }
    let none = R1CS { matrix_a: vec![], matrix_b: vec![], matrix_c: vec![], num_io: i1.x.len(), num_vars: 0 };
    let w = FWitness { e: vec![], w: vec![] };
    Some(NIFS::<T>::prover(&none, &w, &w, i1, i2, &k.scheme, &mut transcript::<T>(prefix)).3)
}
fn pt() -> BoxedStrategy<Pt> {
    prop_oneof![4 => fe().prop_map(Pt::G), 1 => (fe(), any::<bool>()).prop_map(|(a, b)| Pt::X(a, b))].boxed()
}
fn inst() -> BoxedStrategy<Inst> {
    (pt(), pt(), fe(), prop_oneof![6 => prop::collection::vec(fe(), 0..4), 1 => prop::collection::vec(fe(), 0..40)]).prop_map(|(e, w, u, x)| Inst { e, w, u, x }).boxed()
}
fn v03() -> Check {
    Check {
        id: "V03",
        assumptions: vec!["points handed in are on the curve", "the reference string covers the structure"],
        subs: vec![Box::new(Sub {
            name: "garbage",
            rule: "arbitrary instances, points on the curve (also outside the subgroup), openings, missing parts, vectors of any length, some with fitting hash or challenge: the folding verifier, the incremental verifier, the step circuit and the satisfaction check answer. Every case is non-trivial.",
            quick: 3000,
            thorough: 80000,
            examples: vec![],
            strat: || {
                let proof = prop::option::weighted(0.9, (fe(), fe(), pt(), fe(), pt(), fe()));
                let t = prop::option::weighted(0.9, prop_oneof![1 => Just(Pt::G(Fe::Z)), 1 => pt()]);
                ((shape(), [inst(), inst(), inst()], t, 0u8..4, proof, prefix()), (fe(), [fe(), fe()], any::<bool>(), prop::option::of(fe()), 0u8..4), (poly(12), poly(12), stepf(), 0u8..6))
                    .prop_map(|((shape, inst, com_t, fit, proof, prefix), (i, z, hash, h, parts), (w, e, f, digest))| V03 {
                        shape,
                        inst,
                        com_t,
                        fit,
                        proof,
                        prefix,
                        i,
                        z,
                        hash,
                        h,
                        parts,
                        w,
                        e,
                        f,
                        digest,
                    })
                    .boxed()
            },
            run: v03_run,
        })],
    }
}
