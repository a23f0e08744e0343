//! Verdicts and proofs whatever was done before (S01).

use std::sync::Arc;

use ark_bls12_381::Fr;
use ark_poly::univariate::DensePolynomial;
use ark_poly::DenseUVPolynomial;
use ark_ff::{Field, PrimeField};
use digest_11::Digest as Digest11;
use fri::fields::goldilocks::Fq as Gold;
use kzg::commitment::KzgCommitment;
use kzg::opening::KzgOpening;
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use nova::nifs::NIFS;
use nova::r1cs::is_r1cs_satisfied;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2_10::Sha256;

use crate::fri_checks as fri_c;
use crate::fw::{catch, Check, Cx, Sub, R};
use crate::gen::*;
use crate::ivc_checks;
use crate::kzg_checks::{claim, Claim};
use crate::nova_checks::{shift, transcript, Folding};
use crate::nova_model::{full_pair, satisfied, shape, PairR, Shape};
use crate::plonk_checks as plonk_c;
use crate::plonk_model::*;

pub fn check(id: &str) -> Option<Check> {
    (id == "S01").then(s01)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Things {
    Kzg { s: Fe, claims: Vec<Claim>, poly: PolyR },
    Plonk { c: CircR, s: Fe, muts: Vec<Vec<plonk_c::Mut>>, diffs: Vec<plonk_c::Diff> },
    Fri {
        set: fri_c::Setting,
        #[cfg(feature = "hooks")]
        muts: Vec<fri_c::f03x::Mut>,
    },
    Nifs { shape: Shape, a: PairR, b: PairR, prefix: Vec<Fe>, changes: Vec<(u8, Fe)> },
    Ivc { h: ivc_checks::Hist, lies: Vec<(u16, u8, Fe)> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    things: Vec<Things>,
    /// which item when
    order: Vec<u16>,
    threads: u8,
}

/// Something to ask, and the right answer.
struct Item {
    name: String,
    truth: bool,
    ask: Box<dyn Fn() -> Result<bool, String> + Send + Sync>,
}
fn item(v: &mut Vec<Item>, name: &str, truth: bool, ask: impl Fn() -> Result<bool, String> + Send + Sync + 'static) {
    v.push(Item { name: name.into(), truth, ask: Box::new(move || catch(&ask)?) });
}

fn kzg(s: Fr, claims: &[Claim], poly: &PolyR, v: &mut Vec<Item>) {
    let coeffs: Vec<Fr> = poly.coeffs();
    let scheme = Arc::new(KzgScheme::new(Srs::new_from_secret(s, coeffs.len() + 2)));
    let of = |c: &Claim| {
        let (c, w, y, z, ok) = c.get(s);
        (KzgCommitment(g1(c)), KzgOpening(g1(w), y), z, ok)
    };
    for c in claims {
        let (cm, op, z, ok) = of(c);
        let sch = scheme.clone();
        item(v, "kzg verify", ok, move || Ok(sch.verify(&cm, &op, z)));
    }
    // all of them at once, and the true ones only
    for only in [false, true] {
        let l: Vec<_> = claims.iter().map(of).filter(|x| x.3 || !only).collect();
        let ok = l.iter().all(|x| x.3);
        let sch = scheme.clone();
        item(v, "kzg batch", ok, move || {
            let (c, (o, z)): (Vec<_>, (Vec<_>, Vec<_>)) = l.iter().map(|x| (x.0.clone(), (x.1.clone(), x.2))).unzip();
            Ok(sch.batch_verify(&c, &z, &o, &mut rand::thread_rng()))
        });
    }
    // the same commitment and opening each time
    for k in 0..2u64 {
        let z = Fr::from(k + 11);
        let (cf, y, at) = (coeffs.clone(), horner(&coeffs, z), horner(&coeffs, s));
        let sch = scheme.clone();
        item(v, "kzg commit and open", true, move || {
            let p = DensePolynomial::from_coefficients_vec(cf.clone());
            let (c, o) = (sch.commit(&p), sch.open(&p, z));
            Ok(c.0 == g1(at) && o.1 == y && sch.verify(&c, &o, z))
        });
    }
}

fn plonk(c: &CircR, s: Fr, muts: &[Vec<plonk_c::Mut>], diffs: &[plonk_c::Diff], v: &mut Vec<Item>) -> R {
    let conc = c.build();
    let cc = Arc::new(plonk_c::compile(&conc)?);
    let srs = Arc::new(Srs::new_from_secret(s, cc.size));
    let proof = Arc::new(plonk_c::try_prove::<Sha256>(&cc, &srs)?);
    let ask = |cc: &Arc<plonk::compiled_circuit::CompiledCircuit>, p: &Arc<plonk::prover::Proof>| {
        let (cc, srs, p) = (cc.clone(), srs.clone(), p.clone());
        move || Ok(plonk_c::judge::<Sha256>(&cc, &srs, &p)?.is_ok())
    };
    item(v, "plonk verify", true, ask(&cc, &proof));
    let pl = Polys::of(&cc);
    let pi = g1(ark_poly::Polynomial::evaluate(&pl.q[5], &s));
    for ms in muts {
        let mut p = clone_proof(&proof);
        ms.iter().for_each(|m| plonk_c::mutate::<Sha256>(&mut p, m, cc.size, pi));
        let truth = accepts::<Sha256>(&pl, s, &p);
        item(v, "plonk verify changed", truth, ask(&cc, &Arc::new(p)));
    }
    for d in diffs {
        let other = Arc::new(plonk_c::compile(&plonk_c::differ(&conc, d))?);
        if other.size != cc.size {
            continue;
        }
        let truth = accepts::<Sha256>(&Polys::of(&other), s, &proof);
        item(v, "plonk verify for another circuit", truth, ask(&other, &proof));
        if plonk_c::differ(&conc, d).satisfied() {
            let own = Arc::new(plonk_c::try_prove::<Sha256>(&other, &srs)?);
            item(v, "plonk verify", true, ask(&other, &own));
            item(v, "plonk verify for another circuit", accepts::<Sha256>(&pl, s, &own), ask(&cc, &own));
        }
    }
    // the same circuit in another setup
    let s2 = s.square() + Fr::from(3u64);
    if s2 != s {
        let srs2 = Arc::new(Srs::new_from_secret(s2, cc.size));
        let own = Arc::new(plonk_c::try_prove::<Sha256>(&cc, &srs2)?);
        for (p, sec, r) in [(&own, s2, &srs2), (&own, s, &srs), (&proof, s2, &srs2)] {
            let truth = accepts::<Sha256>(&pl, sec, p);
            let (cc, srs, p) = (cc.clone(), r.clone(), p.clone());
            item(v, "plonk verify in another setup", truth, move || Ok(plonk_c::judge::<Sha256>(&cc, &srs, &p)?.is_ok()));
        }
    }
    let (cc, srs) = (cc.clone(), srs.clone());
    item(v, "plonk prove", true, move || {
        let p = plonk_c::try_prove::<Sha256>(&cc, &srs)?;
        Ok(plonk_c::judge::<Sha256>(&cc, &srs, &p)?.is_ok())
    });
    Ok(())
}

fn fri_items<F: PrimeField>(t: &Things, v: &mut Vec<Item>) {
    fri_with::<sha2_11::Sha256, F>(t, v)
}
fn fri_with<T: Digest11 + Default + 'static, F: PrimeField>(t: &Things, v: &mut Vec<Item>) {
    let Things::Fri { set, .. } = t else { return };
    let p = Arc::new(set.prove::<T, F>());
    let ask = |p: &Arc<fri::prover::Proof<F>>| {
        let p = p.clone();
        move || Ok(fri_c::judge::<T, F>(&p)?.is_ok())
    };
    item(v, "fri verify", true, ask(&p));
    #[cfg(feature = "hooks")]
    if let Things::Fri { muts, .. } = t {
        for m in muts {
            let mut q = (*p).clone();
            fri_c::f03x::apply::<T, F>(&mut q, m);
            if fri_c::consistent::<T, F>(&q).is_err() {
                item(v, "fri verify changed", false, {
                    let q = Arc::new(q);
                    // a crash is V01's matter
                    move || Ok(matches!(fri_c::judge::<T, F>(&q), Ok(Ok(()))))
                });
            }
        }
        let set = set.clone();
        let was = format!("{p:?}");
        item(v, "fri prove", true, move || Ok(format!("{:?}", set.prove::<T, F>()) == was));
    }
}

fn nifs(shape: &Shape, a: &PairR, b: &PairR, prefix: &[Fe], changes: &[(u8, Fe)], v: &mut Vec<Item>) {
    let k = Arc::new(shape.setup());
    let (a, b) = (a.pair(&k), b.pair(&k));
    for p in [&a, &b] {
        let mut all = vec![p.clone()];
        for (what, d) in changes {
            let mut q = p.clone();
            let d: Fr = d.f();
            let n = q.0.w.len().max(1);
            match what % 5 {
                0 => q.1.u += d,
                1 => q.1.com_w = shift(&q.1.com_w, d),
                2 => q.1.com_e = shift(&q.1.com_e, d),
                3 => q.0.w.iter_mut().skip(*what as usize % n).take(1).for_each(|w| *w += d),
                _ => q.1.x.iter_mut().take(1).for_each(|x| *x += d),
            }
            all.push(q);
        }
        for q in all {
            let (truth, k) = (satisfied(&k, &q.1, &q.0).is_ok(), k.clone());
            item(v, "satisfaction", truth, move || Ok(is_r1cs_satisfied(&k.r1cs, &q.1, &q.0, &k.scheme).is_ok()));
        }
    }
    let (prefix2, k2) = (prefix.to_vec(), k.clone());
    let make = move || {
        let mut t = transcript::<Sha256>(&prefix2);
        let (w, i, com_t, r) = NIFS::<Sha256>::prover(&k2.r1cs, &a.0, &b.0, &a.1, &b.1, &k2.scheme, &mut t);
        let proof = NIFS::<Sha256>::prove(r, &w, &i, &k2.scheme, &mut t);
        Folding { proof, fi: [a.1.clone(), b.1.clone(), i], com_t, prefix: prefix2.iter().map(Fe::f).collect() }
    };
    let first = make();
    let again = |f: &Folding| Folding { proof: f.proof.clone(), fi: f.fi.clone(), com_t: f.com_t.clone(), prefix: f.prefix.clone() };
    let ask = |f: Folding| {
        let k = k.clone();
        move || Ok(f.verify::<Sha256>(&k).is_ok())
    };
    item(v, "folding verify", true, ask(again(&first)));
    for (what, d) in changes {
        let d: Fr = d.f();
        let mut f = again(&first);
        match what % 8 {
            0 => f.proof.opening_e.1 += d,
            1 => f.proof.opening_w.1 += d,
            2 => f.proof.opening_point += d,
            3 => f.proof.r += d,
            4 => f.fi[2].u += d,
            5 => f.fi[2].com_w = shift(&f.fi[2].com_w, d),
            6 => f.fi[2].com_e = shift(&f.fi[2].com_e, d),
            _ => f.com_t = shift(&f.com_t, d),
        }
        item(v, "folding verify changed", false, ask(f));
    }
    let show = |f: &Folding| (f.proof.opening_e.0, f.proof.opening_w.0, f.proof.opening_e.1, f.proof.opening_w.1, f.proof.r, f.proof.opening_point, f.com_t.0, f.fi[2].clone().x);
    let was = show(&first);
    item(v, "folding prove", true, move || Ok(show(&make()) == was));
}

fn s01_run(c: &History, cx: &mut Cx) -> R {
    let mut items = vec![];
    for t in &c.things {
        match t {
            Things::Kzg { s, claims, poly } => kzg(s.f(), claims, poly, &mut items),
            Things::Plonk { c, s, muts, diffs } => plonk(c, s.f(), muts, diffs, &mut items)?,
            Things::Fri { set, .. } => {
                if set.field() % 2 == 0 {
                    fri_items::<Gold>(t, &mut items)
                } else {
                    fri_items::<Fr>(t, &mut items)
                }
            }
            Things::Ivc { h, lies } => {
                for (name, truth, ask) in ivc_checks::questions(h, lies)? {
                    item(&mut items, name, truth, ask)
                }
            }
            Things::Nifs { shape, a, b, prefix, changes } => nifs(shape, a, b, prefix, changes, &mut items),
        }
    }
    let n = items.len();
    // asked in any order, each several times, by one or several threads
    let order: Vec<usize> = c.order.iter().map(|o| idx(*o, n)).collect();
    let threads = (c.threads % 4 + 1) as usize;
    let one = |k: usize, at: usize| -> R {
        let i = &items[k];
        match (i.ask)() {
            Ok(x) => ensure!(x == i.truth, "{} (item {k}) answers {x} at question {at}, the right answer is {}", i.name, i.truth),
            // a refusal by panic
            Err(m) => ensure!(!i.truth, "{} (item {k}) panics at question {at}: {m}", i.name),
        }
        Ok(())
    };
    if threads == 1 {
        for (at, &k) in order.iter().enumerate() {
            one(k, at)?;
        }
    } else {
        let all: Vec<R> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (order, one) = (&order, &one);
                    sc.spawn(move || -> R {
                        for (at, &k) in order.iter().enumerate().skip(t).step_by(threads) {
                            one(k, at)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in all {
            r?;
        }
    }
    let asked: std::collections::HashSet<usize> = order.iter().copied().collect();
    let (yes, no) = (asked.iter().filter(|k| items[**k].truth).count(), asked.iter().filter(|k| !items[**k].truth).count());
    for k in &asked {
        cx.label(format!("{}: {}", items[*k].name, if items[*k].truth { "right" } else { "wrong" }));
    }
    cx.label(format!("{threads} threads"));
    cx.nt(yes > 0 && no > 0 && order.len() > asked.len());
    Ok(())
}

fn things() -> BoxedStrategy<Things> {
    let nz = || fe_nz();
    prop_oneof![
        3 => (secret(), prop::collection::vec(claim(), 2..6), poly(9)).prop_map(|(s, claims, poly)| Things::Kzg { s, claims, poly }),
        2 => (circ(1..=7), plonk_c::generic(), prop::collection::vec(prop::collection::vec(plonk_c::mutation(), 1..3), 1..3), prop::collection::vec(plonk_c::diff(), 0..3))
            .prop_map(|(c, s, muts, diffs)| Things::Plonk { c, s, muts, diffs }),
        3 => fri_things(),
        3 => (shape(), full_pair(), full_pair(), prop::collection::vec(fe(), 0..2), prop::collection::vec((any::<u8>(), nz()), 1..4))
            .prop_map(|(shape, a, b, prefix, changes)| Things::Nifs { shape, a, b, prefix, changes }),
        2 => (ivc_checks::hist(1..=4), prop::collection::vec((any::<u16>(), any::<u8>(), nz()), 1..4)).prop_map(|(h, lies)| Things::Ivc { h, lies }),
    ]
    .boxed()
}
#[cfg(feature = "hooks")]
fn fri_things() -> BoxedStrategy<Things> {
    (fri_c::setting(12, 5), prop::collection::vec(fri_c::f03x::mutation(), 1..4)).prop_map(|(set, muts)| Things::Fri { set, muts }).boxed()
}
#[cfg(not(feature = "hooks"))]
fn fri_things() -> BoxedStrategy<Things> {
    fri_c::setting(12, 5).prop_map(|set| Things::Fri { set }).boxed()
}

fn s01() -> Check {
    Check {
        id: "S01",
        assumptions: vec!["the right answer to each question is that of the models of the other checks", "group, pairing, field and domain arithmetic of the ark crates"],
        subs: vec![Box::new(Sub {
            name: "history",
            rule: "one to three settings (reference string with claims, circuit with proofs in two setups, FRI proofs, committed instances and foldings, incremental computations), right and wrong questions about each (verify, batch verify, verify for another circuit, prove and verify, prove again), asked up to 40 times in any order in one to four threads on shared objects; every answer must be the right one. Non-trivial: right and wrong questions, some asked twice.",
            quick: 700,
            thorough: 12000,
            examples: vec![],
            strat: || {
                (prop::collection::vec(things(), 1..4), prop::collection::vec(any::<u16>(), 6..40), any::<u8>())
                    .prop_map(|(things, order, threads)| History { things, order, threads })
                    .boxed()
            },
            run: s01_run,
        })],
    }
}
