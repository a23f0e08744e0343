//! The transcripts of fri and nova: binding of the whole history (F05).

use std::collections::HashSet;

use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use fri::fiat_shamir::transcript::Transcript as FriT;
use fri::fields::goldilocks::Fq as Gold;
use kzg::commitment::KzgCommitment;
use nova::transcript::Transcript as NovaT;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::digests::{Salted, Salted11, Short, Short11};
use crate::fw::{catch, Check, Cx, Sub, R};
use crate::gen::*;

pub fn check(id: &str) -> Option<Check> {
    (id == "F05").then(f05)
}

/// One absorbed message. A point (by its logarithm) is a scalar to the transcripts that have no points.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Msg {
    S(Fe),
    P(Fe),
    NegP(Fe),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Absorb(Msg),
    /// squeeze this many, as field elements or numbers
    Squeeze(u16, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    /// message i plus a value (or into the other kind)
    Edit(u16, Fe),
    Bit(u16, u8),
    Kind(u16),
    Drop(u16),
    Dup(u16),
    Swap(u16, u16),
    Insert(u16, Msg),
    Append(Msg),
    Front(Msg),
    Reverse,
    Init(Fe),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    init: Fe,
    ops: Vec<Op>,
    change: Change,
    which: u8,
}

/// What both transcripts can do.
trait Tr: Clone {
    type F: PrimeField;
    fn start(init: &Fe) -> Self;
    fn absorb(&mut self, m: &Msg);
    /// `how` chooses among the entry points.
    fn squeeze(&mut self, n: usize, how: u8) -> Vec<Vec<u8>>;
    fn start_num(n: u64) -> Self;
    fn absorb_num(&mut self, n: u64);
    /// 64 bits of the next challenge
    fn first(&mut self) -> u64;
    fn has_points() -> bool {
        false
    }
}
fn low<F: PrimeField>(x: F) -> u64 {
    x.into_bigint().as_ref()[0]
}
fn bytes<F: PrimeField>(x: F) -> Vec<u8> {
    x.to_string().into_bytes()
}
macro_rules! fri_tr {
    ($d:ty, $f:ty) => {
        impl Tr for FriT<$d, $f> {
            type F = $f;
            fn start(init: &Fe) -> Self {
                FriT::new(init.f())
            }
            fn absorb(&mut self, m: &Msg) {
                match m {
                    Msg::S(x) | Msg::P(x) | Msg::NegP(x) => self.digest(x.f()),
                }
            }
            fn start_num(n: u64) -> Self {
                FriT::new(<$f>::from(n))
            }
            fn absorb_num(&mut self, n: u64) {
                self.digest(<$f>::from(n))
            }
            fn first(&mut self) -> u64 {
                low(self.generate_a_challenge())
            }
            fn squeeze(&mut self, n: usize, how: u8) -> Vec<Vec<u8>> {
                match how % 3 {
                    0 if n == 1 => vec![bytes(self.generate_a_challenge())],
                    2 => self.generate_challenge_list_usize(n).into_iter().map(|x| x.to_le_bytes().to_vec()).collect(),
                    _ => self.generate_challenges(n).into_iter().map(bytes).collect(),
                }
            }
        }
    };
}
fri_tr!(sha2_11::Sha256, Gold);
fri_tr!(sha2_11::Sha256, Fr);
fri_tr!(sha2_11::Sha512, Gold);
fri_tr!(Salted11<3>, Gold);
fri_tr!(Short11, Gold);
macro_rules! nova_tr {
    ($d:ty) => {
        impl Tr for NovaT<$d> {
            type F = Fr;
            fn start(init: &Fe) -> Self {
                NovaT::from_scalar_number(&[init.f()])
            }
            fn absorb(&mut self, m: &Msg) {
                match m {
                    Msg::S(x) => self.feed_scalar_num(x.f()),
                    Msg::P(x) => self.feed(&KzgCommitment(g1(x.f()))),
                    Msg::NegP(x) => self.feed(&KzgCommitment(g1(-x.f::<Fr>()))),
                }
            }
            fn start_num(n: u64) -> Self {
                NovaT::from_scalar_number(&[Fr::from(n)])
            }
            fn absorb_num(&mut self, n: u64) {
                self.feed_scalar_num(Fr::from(n))
            }
            fn first(&mut self) -> u64 {
                low(self.generate_challenges::<1>()[0])
            }
            fn squeeze(&mut self, n: usize, _: u8) -> Vec<Vec<u8>> {
                match n {
                    0 => vec![],
                    1 => self.generate_challenges::<1>().map(bytes).to_vec(),
                    2 => self.generate_challenges::<2>().map(bytes).to_vec(),
                    3 => self.generate_challenges::<3>().map(bytes).to_vec(),
                    4 => self.generate_challenges::<4>().map(bytes).to_vec(),
                    5..=16 => self.generate_challenges::<16>().map(bytes).to_vec(),
                    17..=300 => self.generate_challenges::<300>().map(bytes).to_vec(),
                    _ => self.generate_challenges::<2100>().map(bytes).to_vec(),
                }
            }
            fn has_points() -> bool {
                true
            }
        }
    };
}
nova_tr!(sha2_10::Sha256);
nova_tr!(sha2_10::Sha512);
nova_tr!(Salted<3>);
nova_tr!(Short);

macro_rules! with {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 9 {
            0 => $f::<FriT<sha2_11::Sha256, Gold>>($($a),*),
            1 => $f::<FriT<sha2_11::Sha256, Fr>>($($a),*),
            2 => $f::<FriT<sha2_11::Sha512, Gold>>($($a),*),
            3 => $f::<FriT<Salted11<3>, Gold>>($($a),*),
            4 => $f::<NovaT<sha2_10::Sha256>>($($a),*),
            5 => $f::<NovaT<sha2_10::Sha512>>($($a),*),
            6 => $f::<NovaT<Salted<3>>>($($a),*),
            7 => $f::<FriT<Short11, Gold>>($($a),*),
            _ => $f::<NovaT<Short>>($($a),*),
        }
    };
}

/// The message as the transcript sees it.
fn seen<T: Tr>(m: &Msg) -> (bool, T::F) {
    match m {
        Msg::S(x) => (false, x.f()),
        Msg::P(x) => (T::has_points(), x.f()),
        Msg::NegP(x) if T::has_points() => (true, -x.f::<T::F>()),
        Msg::NegP(x) => (false, x.f()),
    }
}
fn case_run(c: &Case, cx: &mut Cx) -> R {
    cx.label(["fri/sha256", "fri/sha256/Fr", "fri/sha512", "fri/salted", "nova/sha256", "nova/sha512", "nova/salted", "fri/20 bytes", "nova/20 bytes"][c.which as usize % 9]);
    with!(c.which, case(c, cx))
}
fn case<T: Tr>(c: &Case, cx: &mut Cx) -> R {
    let msgs: Vec<Msg> = c.ops.iter().filter_map(|o| if let Op::Absorb(m) = o { Some(m.clone()) } else { None }).collect();
    // 1. the same history, stepwise: with the squeezes, without them, with a clone at each squeeze
    let mut a = T::start(&c.init);
    let mut b = T::start(&c.init);
    let mut fed = true;
    let mut count = 0;
    for op in &c.ops {
        match op {
            Op::Absorb(m) => {
                a.absorb(m);
                b.absorb(m);
                fed = true;
                count += 1;
            }
            Op::Squeeze(n, how) => {
                let (n, how) = ((*n).max(1) as usize, *how);
                if !fed {
                    let mut again = a.clone();
                    ensure!(catch(|| again.squeeze(n.max(1), how)).is_err(), "a second squeeze after {count} messages, with nothing absorbed between, is answered");
                    continue;
                }
                let mut side = b.clone();
                let x = a.squeeze(n, how);
                let y = side.squeeze(n, how);
                ensure!(x == y, "after {count} messages: the challenges depend on earlier squeezes");
                let mut fresh = T::start(&c.init);
                msgs[..count].iter().for_each(|m| fresh.absorb(m));
                ensure!(x == fresh.squeeze(n, how), "after {count} messages: the same history gives other challenges");
                // prefix
                let mut long = b.clone();
                let l = long.squeeze(n + 2, how);
                let longer = b.clone().squeeze(n + 650, how);
                ensure!(longer[..l.len().min(longer.len())] == l[..l.len().min(longer.len())], "after {count} messages: a squeeze of {} is no prefix of one of {}", n + 2, n + 650);
                ensure!(l.len() >= n && l[..n.min(x.len())] == x[..n.min(x.len())], "after {count} messages: a squeeze of {n} is no prefix of a longer one");
                let set: HashSet<_> = l.iter().collect();
                ensure!(set.len() == l.len(), "after {count} messages: challenges of one squeeze coincide");
                if how % 3 != 2 || T::has_points() {
                    let mut one = b.clone();
                    let o = one.squeeze(1, 0);
                    ensure!(o[0] == l[0], "after {count} messages: a single challenge is not the first of several");
                }
                fed = false;
            }
        }
    }
    // 2. another history
    let mut init = c.init.clone();
    let mut other = msgs.clone();
    let n = other.len();
    let pos = |i: u16| idx(i, n.max(1));
    let mut at = 0;
    match &c.change {
        Change::Edit(i, d) if n > 0 => {
            at = pos(*i);
            other[at] = Msg::S(d.clone());
        }
        Change::Bit(i, k) if n > 0 => {
            at = pos(*i);
            let add = |x: &Fe| Fe::Sum(Box::new(x.clone()), *k);
            other[at] = match &msgs[at] {
                Msg::S(x) => Msg::S(add(x)),
                Msg::P(x) => Msg::P(add(x)),
                Msg::NegP(x) => Msg::NegP(add(x)),
            };
        }
        Change::Kind(i) if n > 0 => {
            at = pos(*i);
            other[at] = match &msgs[at] {
                Msg::S(x) => Msg::P(x.clone()),
                Msg::P(x) => Msg::NegP(x.clone()),
                Msg::NegP(x) => Msg::P(x.clone()),
            };
        }
        Change::Drop(i) if n > 0 => {
            at = pos(*i);
            other.remove(at);
        }
        Change::Dup(i) if n > 0 => {
            at = pos(*i);
            other.insert(at, msgs[at].clone());
        }
        Change::Swap(i, j) if n > 0 => {
            other.swap(pos(*i), pos(*j));
            at = pos(*i).min(pos(*j));
        }
        Change::Insert(i, m) => {
            at = pos(*i);
            other.insert(at.min(n), m.clone());
        }
        Change::Append(m) => {
            other.push(m.clone());
            at = n;
        }
        Change::Front(m) => other.insert(0, m.clone()),
        Change::Reverse => other.reverse(),
        Change::Init(x) => init = x.clone(),
        _ => return Ok(()),
    }
    let name = format!("{:?}", c.change);
    cx.label(name.split('(').next().unwrap());
    let old: Vec<_> = msgs.iter().map(seen::<T>).collect();
    let new: Vec<_> = other.iter().map(seen::<T>).collect();
    if old == new && init.f::<T::F>() == c.init.f::<T::F>() {
        return Ok(());
    }
    cx.nt(true);
    // as much of the common tail as there is is absorbed too: every later challenge differs
    let mut x = T::start(&c.init);
    let mut y = T::start(&init);
    for m in &msgs {
        x.absorb(m);
    }
    for m in &other {
        y.absorb(m);
    }
    for tail in 0..3u32 {
        let (mut p, mut q) = (x.clone(), y.clone());
        let (p, q) = (p.squeeze(3, 1), q.squeeze(3, 1));
        ensure!(p.iter().all(|v| !q.contains(v)), "histories that differ from message {at} on give equal challenges {tail} messages later: {name}");
        x.absorb(&Msg::S(Fe::S(tail)));
        y.absorb(&Msg::S(Fe::S(tail)));
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    which: u8,
    seed: u64,
    m: Fe,
}
/// Challenges after many near-by histories, and long squeezes.
fn many_run(c: &Many, cx: &mut Cx) -> R {
    with!(c.which, many(c, cx))
}
fn many<T: Tr>(c: &Many, cx: &mut Cx) -> R {
    cx.nt(true);
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut add = |what: String, l: Vec<Vec<u8>>| -> R {
        for (i, v) in l.into_iter().enumerate() {
            ensure!(seen.insert(v), "{what}: challenge {i} came before");
        }
        Ok(())
    };
    let start = || T::start(&Fe::R(c.seed));
    // squeezing many at once: all different, and whatever the number, the same ones come first
    let all = start().squeeze(2100, 1);
    add("a long squeeze".into(), all.clone())?;
    let numbers = start().squeeze(2100, 2);
    for n in (1..=270).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2048]) {
        for (how, l) in [(1, &all), (2, &numbers)] {
            let x = start().squeeze(n, how);
            let m = x.len().min(l.len());
            ensure!(m >= n.min(270) && x[..m] == l[..m], "a squeeze of {n} is no prefix of a longer one");
        }
    }
    // the same message again and again
    let mut t = start();
    for i in 0..300 {
        t.absorb(&Msg::S(c.m.clone()));
        add(format!("the same message {} times", i + 1), t.clone().squeeze(4, 1))?;
        if i % 3 == 0 {
            t.squeeze(1, 0);
        }
    }
    // every bit of the message counts
    for k in 0..=254u8 {
        let x = Fe::Sum(Box::new(Fe::R(c.seed ^ 1)), k);
        if k as u32 >= T::F::MODULUS_BIT_SIZE {
            break;
        }
        let mut t = start();
        t.absorb(&Msg::S(x));
        add(format!("message plus 2^{k}"), t.squeeze(2, 1))?;
    }
    // numbers whose digits run into each other
    for (a, b) in [(1, 23), (12, 3), (123, 0), (0, 123), (1, 230), (12, 30), (3, 12)] {
        let mut t = start();
        t.absorb(&Msg::S(Fe::S(a)));
        t.absorb(&Msg::S(Fe::S(b)));
        add(format!("messages {a} and {b}"), t.squeeze(2, 1))?;
    }
    // every bit of challenges as numbers varies
    let (mut and, mut or) = ([0xffu8; 8], [0u8; 8]);
    let mut t = start();
    for v in t.squeeze(64, 2) {
        for i in 0..8.min(v.len()) {
            and[i] &= v[i];
            or[i] |= v[i];
        }
    }
    if !T::has_points() {
        ensure!(and[..4] == [0; 4] && or[..4] == [0xff; 4], "some low bit is the same in 64 challenges");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lots {
    which: u8,
    seed: u64,
    /// 2^log histories
    log: u8,
    /// the first message or the second
    how: u8,
}
/// First challenges of so many histories that a transcript which keeps few bits of them repeats itself.
fn lots_run(c: &Lots, cx: &mut Cx) -> R {
    with!(c.which, lots(c, cx))
}
fn lots<T: Tr>(c: &Lots, cx: &mut Cx) -> R {
    cx.nt(true);
    let n = 1u64 << c.log;
    let base = T::start(&Fe::R(c.seed));
    let mut at: Vec<u64> = vec![];
    let mut got: Vec<(u64, u64)> = vec![];
    for i in 0..n {
        let m = c.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(i);
        let mut t = if c.how == 0 { T::start_num(m) } else { base.clone() };
        if c.how != 0 {
            t.absorb_num(m);
        }
        got.push((t.first(), i));
        at.push(m);
    }
    got.sort_unstable();
    if let Some(w) = got.windows(2).find(|w| w[0].0 == w[1].0) {
        let (a, b) = (at[w[0].1 as usize], at[w[1].1 as usize]);
        // the message as the field sees it
        let same = T::F::from(a) == T::F::from(b);
        ensure!(same, "the messages {a} and {b} lead to the same challenge");
    }
    Ok(())
}

fn msg() -> BoxedStrategy<Msg> {
    prop_oneof![5 => fe().prop_map(Msg::S), 2 => fe().prop_map(Msg::P), 1 => fe_nz().prop_map(Msg::NegP)].boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => msg().prop_map(Op::Absorb),
        2 => (prop_oneof![6 => 1u16..=4, 2 => 0u16..=14, 1 => 15u16..=600], any::<u8>()).prop_map(|(a, b)| Op::Squeeze(a, b)),
    ]
    .boxed()
}
fn f05() -> Check {
    Check {
        id: "F05",
        assumptions: vec!["the digests of sha2 and StdRng of rand"],
        subs: vec![
            Box::new(Sub {
                name: "histories",
                rule: "a history of absorbed messages (field elements, and points where there are any) and squeezes on each transcript, field and digest; against clones, squeeze-free and repeated histories, and against a changed history, whose later challenges must all differ. Non-trivial: the changed history differs.",
                quick: 20000,
                thorough: 500000,
                examples: [13usize, 17, 20, 33, 40, 65, 70, 130, 257]
                    .into_iter()
                    .flat_map(|n| {
                        // long histories, with squeezes here and there
                        let ops = move |every: usize| -> Vec<Op> {
                            (0..n)
                                .flat_map(|i| {
                                    let m = Op::Absorb(if i % 5 == 4 { Msg::P(Fe::R(i as u64)) } else { Msg::S(Fe::R(i as u64)) });
                                    if i % every == every - 1 { vec![m, Op::Squeeze(2, i as u8)] } else { vec![m] }
                                })
                                .chain([Op::Squeeze(2, 0)])
                                .collect()
                        };
                        (0..9u8).flat_map(move |which| {
                            [Change::Bit(0, which), Change::Bit(65535, 40), Change::Bit(30000 + 1000 * which as u16, 7), Change::Drop(65535), Change::Drop(20000), Change::Swap(0, 65535), Change::Front(Msg::S(Fe::One)), Change::Init(Fe::S(77))]
                                .into_iter()
                                .enumerate()
                                .map(|(k, change)| Case { init: Fe::R(9), ops: ops(if k % 2 == 0 { 1000 } else { 7 }), change, which })
                                .collect::<Vec<_>>()
                        })
                    })
                    .collect(),
                strat: || {
                    let u = any::<u16>;
                    let change = prop_oneof![
                        2 => (u(), fe()).prop_map(|(a, b)| Change::Edit(a, b)),
                        3 => (u(), any::<u8>()).prop_map(|(a, b)| Change::Bit(a, b)),
                        1 => u().prop_map(Change::Kind),
                        2 => u().prop_map(Change::Drop),
                        2 => u().prop_map(Change::Dup),
                        2 => (u(), u()).prop_map(|(a, b)| Change::Swap(a, b)),
                        1 => (u(), msg()).prop_map(|(a, b)| Change::Insert(a, b)),
                        1 => msg().prop_map(Change::Append),
                        1 => msg().prop_map(Change::Front),
                        1 => Just(Change::Reverse),
                        1 => fe().prop_map(Change::Init),
                    ];
                    (fe(), prop::collection::vec(op(), 1..12), change, 0u8..9).prop_map(|(init, ops, change, which)| Case { init, ops, change, which }).boxed()
                },
                run: case_run,
            }),
            Box::new(Sub {
                name: "many",
                rule: "some 4000 challenges of one transcript after near-by histories (each bit of a message, a message repeated up to 300 times, digits that run together, a long squeeze) are all different, and squeezes of 1 to 270 and of up to 2048 are prefixes of one of 2100. Every case is non-trivial.",
                quick: 400,
                thorough: 8000,
                examples: (0..9).map(|which| Many { which, seed: 3, m: Fe::Z }).collect(),
                strat: || (0u8..9, any::<u64>(), fe()).prop_map(|(which, seed, m)| Many { which, seed, m }).boxed(),
                run: many_run,
            }),
            Box::new(Sub {
                name: "lots",
                rule: "the challenges after 2^17 histories that differ in one message (2^21 for the examples) are all different, so a challenge keeps at least some 38 bits of what was absorbed. Every case is non-trivial.",
                quick: 40,
                thorough: 2000,
                examples: (0..7).flat_map(|which| [0u8, 1].map(|how| Lots { which, seed: 5, log: if how == 1 { 21 } else { 18 }, how })).collect(),
                strat: || (0u8..9, any::<u64>(), 0u8..2).prop_map(|(which, seed, how)| Lots { which, seed, log: 17, how }).boxed(),
                run: lots_run,
            }),
        ],
    }
}
