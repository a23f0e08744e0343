//! Equations: what their circuits mean, their spellings, and the preprocessed input.

use std::collections::HashMap;
use std::sync::LazyLock;

use ark_bls12_381::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::{EvaluationDomain, Polynomial};
use kzg::scheme::KzgScheme;
use kzg::srs::Srs;
use plonk::circuit::Circuit;
use plonk::common_preprocessed_input::cpi_parser::{CPIGenerator, CommonPreprocessedInput};
use plonk::compiled_circuit::CompiledCircuit;
use plonk::parser::Parser;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use sha2_10::Sha256;

use crate::fw::{catch, Check, Cx, Fail, Sub, R};
use crate::gen::*;
use crate::plonk_checks::{judge, refused, try_prove, GROUPS};
use crate::plonk_model::*;

pub fn check(id: &str) -> Option<Check> {
    Some(match id {
        "P08" => p08(),
        "P09" => p09(),
        "P10" => p10(),
        "P11" => p11(),
        _ => return None,
    })
}

// ---------------------------------------------------------------- equations

static NAMES: LazyLock<Vec<String>> = LazyLock::new(|| {
    let some = ["x", "y", "z", "w", "xx", "ab", "x1", "a_b", "e", "yxy", "x10", "x_", "_x", "zebra", "abcdefghijklmnopqrstuvwxyz", "e1e"];
    // and many more
    some.into_iter().map(String::from).chain((0..84).map(|k| format!("v{k}"))).collect()
});

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Atom {
    Var(u8),
    Num(u32),
    /// a number with leading zeros
    Zeros(u8, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Factor {
    neg: bool,
    atom: Atom,
    exp: u16,
}

type Term = Vec<Factor>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Eqn {
    lhs: Vec<Term>,
    rhs: Term,
}

fn name(v: u8) -> &'static str {
    &NAMES[v as usize % NAMES.len()]
}

impl Atom {
    fn text(&self) -> String {
        match self {
            Atom::Var(v) => name(*v).to_string(),
            Atom::Num(n) => n.to_string(),
            Atom::Zeros(z, n) => "0".repeat(*z as usize) + &n.to_string(),
        }
    }
    fn value(&self, vars: &HashMap<String, Fr>) -> Fr {
        match self {
            Atom::Var(v) => vars[name(*v)],
            Atom::Num(n) | Atom::Zeros(_, n) => Fr::from(*n),
        }
    }
}

impl Eqn {
    /// Every factor written out.
    fn text(&self) -> String {
        let term = |t: &Term| {
            t.iter()
                .map(|f| {
                    let a = f.atom.text();
                    let mut s = if f.neg { "-".to_string() } else { String::new() };
                    s += &vec![a; f.exp as usize].join("*");
                    s
                })
                .collect::<Vec<_>>()
                .join("*")
        };
        self.lhs.iter().map(term).collect::<Vec<_>>().join("+") + "=" + &term(&self.rhs)
    }

    /// Some other spelling.
    fn spell(&self, seed: u64) -> String {
        let mut rng = StdRng::seed_from_u64(seed);
        let mut term = |t: &Term| {
            t.iter()
                .map(|f| {
                    let a = f.atom.text();
                    let mut s = if f.neg { "-".to_string() } else { String::new() };
                    // x^a * x^b * ... with a + b + ... = exp
                    let mut left = f.exp as usize;
                    let mut parts = vec![];
                    while left > 0 {
                        let k = if rng.gen_bool(0.5) { left } else { rng.gen_range(1..=left) };
                        left -= k;
                        parts.push(match (k, rng.gen_range(0..4)) {
                            (1, 0..=2) => a.clone(),
                            (_, 0) => vec![a.clone(); k].join("*"),
                            (_, 1) => format!("{a}^0{k}"),
                            _ => format!("{a}^{k}"),
                        });
                    }
                    s += &parts.join("*");
                    s
                })
                .collect::<Vec<_>>()
                .join("*")
        };
        let l = self.lhs.iter().map(&mut term).collect::<Vec<_>>().join("+");
        let t = l + "=" + &term(&self.rhs);
        let spaces = *[0.0, 0.1, 0.5].get(rng.gen_range(0..3usize)).unwrap();
        let upper = *[0.0, 0.3, 1.0].get(rng.gen_range(0..3usize)).unwrap();
        let mut out = String::new();
        for c in t.chars() {
            while rng.gen_bool(spaces) {
                out.push(' ');
            }
            if rng.gen_bool(upper) {
                out.extend(c.to_uppercase());
            } else {
                out.push(c);
            }
        }
        while rng.gen_bool(spaces) {
            out.push(' ');
        }
        out
    }

    fn term_value(t: &Term, vars: &HashMap<String, Fr>) -> Fr {
        t.iter()
            .map(|f| {
                let v = f.atom.value(vars).pow([f.exp as u64]);
                if f.neg {
                    -v
                } else {
                    v
                }
            })
            .product()
    }
    fn lhs_value(&self, vars: &HashMap<String, Fr>) -> Fr {
        self.lhs.iter().map(|t| Self::term_value(t, vars)).sum()
    }
    fn diff(&self, vars: &HashMap<String, Fr>) -> Fr {
        self.lhs_value(vars) - Self::term_value(&self.rhs, vars)
    }
    fn vars(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .lhs
            .iter()
            .chain([&self.rhs])
            .flatten()
            .filter_map(|f| match &f.atom {
                Atom::Var(v) => Some(name(*v).to_string()),
                _ => None,
            })
            .collect();
        v.sort();
        v.dedup();
        v
    }
    fn gates(&self) -> usize {
        self.lhs.iter().chain([&self.rhs]).flatten().map(|f| f.exp as usize + 1).sum()
    }
}

fn atom() -> BoxedStrategy<Atom> {
    prop_oneof![
        6 => (0u8..4).prop_map(Atom::Var),
        2 => (0u8..16).prop_map(Atom::Var),
        1 => any::<u8>().prop_map(Atom::Var),
        3 => (0u32..13).prop_map(Atom::Num),
        1 => (0u32..=i32::MAX as u32).prop_map(Atom::Num),
        1 => (1u8..3, 0u32..20).prop_map(|(a, b)| Atom::Zeros(a, b)),
    ]
    .boxed()
}
fn factor() -> BoxedStrategy<Factor> {
    (prop::bool::weighted(0.25), atom(), prop_oneof![5 => Just(1u16), 2 => Just(2u16), 1 => 3u16..6])
        .prop_map(|(neg, atom, exp)| Factor { neg, atom, exp })
        .boxed()
}
fn term() -> BoxedStrategy<Term> {
    prop_oneof![3 => prop::collection::vec(factor(), 1..=1), 3 => prop::collection::vec(factor(), 2..=2), 1 => prop::collection::vec(factor(), 3..=4)].boxed()
}
fn eqn() -> BoxedStrategy<Eqn> {
    let lhs = prop_oneof![
        4 => prop::collection::vec(term(), 1..=3),
        1 => prop::collection::vec(term(), 4..=7),
        // the same term again
        1 => (term(), prop::collection::vec(term(), 0..=2)).prop_map(|(t, mut v)| { v.push(t.clone()); v.insert(0, t); v }),
    ];
    (lhs, term()).prop_map(|(lhs, rhs)| Eqn { lhs, rhs }).boxed()
}

fn parser(vars: &HashMap<String, Fr>) -> Parser {
    let mut p = Parser::default();
    for (k, v) in vars {
        p.add_witness(k, *v);
    }
    p
}
fn assign(seed: u64) -> HashMap<String, Fr> {
    let mut rng = StdRng::seed_from_u64(seed);
    NAMES.iter().map(|n| (n.to_string(), Fr::rand(&mut rng))).collect()
}
/// Few different values: zero, ones, the numbers of the equation, their negatives.
fn special(e: &Eqn, seed: u64) -> HashMap<String, Fr> {
    let mut rng = StdRng::seed_from_u64(seed);
    let mut pool: Vec<Fr> = vec![Fr::zero(), Fr::one(), -Fr::one(), Fr::from(2u64), Fr::rand(&mut rng)];
    for f in e.lhs.iter().chain([&e.rhs]).flatten() {
        if let Atom::Num(n) | Atom::Zeros(_, n) = &f.atom {
            pool.push(Fr::from(*n));
            pool.push(-Fr::from(*n));
        }
    }
    let k = rng.gen_range(1..=pool.len());
    let pool: Vec<Fr> = (0..k).map(|_| pool[rng.gen_range(0..pool.len())]).collect();
    NAMES.iter().map(|n| (n.to_string(), pool[rng.gen_range(0..k)])).collect()
}
fn parse(vars: &HashMap<String, Fr>, text: &str) -> Result<Circuit, String> {
    let p = parser(vars);
    catch(|| p.parse(text))
}
fn compiled(c: Circuit) -> Result<CompiledCircuit, String> {
    catch(|| c.compile()).map_err(|m| format!("compiling panics: {m}"))?
}

// ---------------------------------------------------------------- P08

/// The compiled circuit as constraints between classes of cells.
struct Sys {
    /// selectors l, r, o, m, c, pi of the rows that have any
    rows: Vec<(usize, [Fr; 6])>,
    /// class of cell (row, wire)
    class: HashMap<(usize, usize), usize>,
    /// value of each class in the witness (of its first cell)
    value: Vec<Vec<Fr>>,
    relevant: Vec<bool>,
    last: usize,
}

impl Sys {
    fn of(cc: &CompiledCircuit) -> Result<Sys, String> {
        let pl = Polys::of(cc);
        let n = pl.n;
        let dom = pl.domain();
        let at = |p: &P| -> Vec<Fr> { (0..n).map(|i| horner(&p.coeffs, dom.element(i))).collect() };
        let q: Vec<Vec<Fr>> = pl.q.iter().map(at).collect();
        let f: Vec<Vec<Fr>> = pl.f.iter().map(at).collect();
        let s: Vec<Vec<Fr>> = pl.s.iter().map(at).collect();
        let ks = [Fr::one(), pl.k1, pl.k2];
        let label: HashMap<Fr, (usize, usize)> = (0..3).flat_map(|w| (0..n).map(move |i| (w, i))).map(|(w, i)| (ks[w] * dom.element(i), (i, w))).collect();
        let mut parent: HashMap<(usize, usize), (usize, usize)> = label.values().map(|c| (*c, *c)).collect();
        fn root(p: &HashMap<(usize, usize), (usize, usize)>, mut c: (usize, usize)) -> (usize, usize) {
            while p[&c] != c {
                c = p[&c];
            }
            c
        }
        for i in 0..n {
            for w in 0..3 {
                let t = *label.get(&s[w][i]).ok_or("the permutation leads outside the circuit")?;
                let (a, b) = (root(&parent, (i, w)), root(&parent, t));
                parent.insert(a, b);
            }
        }
        let mut ids = HashMap::new();
        let mut class = HashMap::new();
        let mut value: Vec<Vec<Fr>> = vec![];
        let mut relevant = vec![];
        let mut rows = vec![];
        for i in 0..n {
            let r = [q[0][i], q[1][i], q[2][i], q[3][i], q[4][i], q[5][i]];
            if r.iter().any(|x| !x.is_zero()) {
                rows.push((i, r));
            }
            for w in 0..3 {
                let k = *ids.entry(root(&parent, (i, w))).or_insert_with(|| {
                    value.push(vec![]);
                    relevant.push(false);
                    value.len() - 1
                });
                class.insert((i, w), k);
                value[k].push(f[w][i]);
                let used = match w {
                    0 => !r[0].is_zero() || !r[3].is_zero(),
                    1 => !r[1].is_zero() || !r[3].is_zero(),
                    _ => !r[2].is_zero(),
                };
                relevant[k] |= used;
            }
        }
        let last = rows.last().ok_or("the circuit has no gate")?.0;
        Ok(Sys { rows, class, value, relevant, last })
    }

    /// Derives what the gates force, starting from the given classes.
    fn propagate(&self, given: &HashMap<usize, Fr>) -> Result<HashMap<usize, Fr>, String> {
        let mut known = given.clone();
        loop {
            let before = known.len();
            for (i, q) in &self.rows {
                let c: Vec<usize> = (0..3).map(|w| self.class[&(*i, w)]).collect();
                let get = |k: &HashMap<usize, Fr>, w: usize| k.get(&c[w]).copied();
                let (a, b, o) = (get(&known, 0), get(&known, 1), get(&known, 2));
                // q_l a + q_r b + q_o c + q_m ab + q_c + pi = 0, solved for one of the wires
                let konst = q[4] + q[5];
                let left_in = !q[0].is_zero() || !q[3].is_zero();
                let right_in = !q[1].is_zero() || !q[3].is_zero();
                let out_in = !q[2].is_zero();
                let ready = |x: Option<Fr>, needed: bool| if needed { x } else { Some(x.unwrap_or_default()) };
                match (ready(a, left_in), ready(b, right_in), ready(o, out_in)) {
                    (Some(a), Some(b), Some(o)) => {
                        if !(q[0] * a + q[1] * b + q[2] * o + q[3] * a * b + konst).is_zero() {
                            return Err(format!("the gate in row {i} contradicts the others"));
                        }
                    }
                    (Some(a), Some(b), None) => {
                        known.insert(c[2], -(q[0] * a + q[1] * b + q[3] * a * b + konst) / q[2]);
                    }
                    (None, Some(b), Some(o)) => {
                        let d = q[0] + q[3] * b;
                        // a division that only some values allow forces nothing
                        if q[3].is_zero() && !d.is_zero() {
                            known.insert(c[0], -(q[1] * b + q[2] * o + konst) / d);
                        }
                    }
                    (Some(a), None, Some(o)) => {
                        let d = q[1] + q[3] * a;
                        if q[3].is_zero() && !d.is_zero() {
                            known.insert(c[1], -(q[0] * a + q[2] * o + konst) / d);
                        }
                    }
                    _ => {}
                }
            }
            if known.len() == before {
                return Ok(known);
            }
        }
    }

    fn missing(&self, known: &HashMap<usize, Fr>) -> Vec<usize> {
        (0..self.value.len()).filter(|k| self.relevant[*k] && !known.contains_key(k)).collect()
    }

    /// One class per variable, such that everything follows from them.
    fn variables(&self, vars: &[(String, Fr)], chosen: &mut Vec<usize>, budget: &mut usize) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        if chosen.len() == vars.len() {
            let given: HashMap<usize, Fr> = chosen.iter().zip(vars).map(|(c, v)| (*c, v.1)).collect();
            // the final wire is not the difference in the witness, hence no conflict is looked for here
            return match self.propagate(&given) {
                Ok(k) => self.missing(&k).is_empty(),
                Err(_) => false,
            };
        }
        let v = vars[chosen.len()].1;
        for k in 0..self.value.len() {
            if self.relevant[k] && self.value[k][0] == v && !chosen.contains(&k) {
                chosen.push(k);
                if self.variables(vars, chosen, budget) {
                    return true;
                }
                chosen.pop();
            }
        }
        false
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MeaningCase {
    e: Eqn,
    a: u64,
    b: u64,
}

fn p08_meaning(c: &MeaningCase, cx: &mut Cx) -> R {
    let text = c.e.text();
    let vars = assign(c.a);
    let cc = compiled(parse(&vars, &text).map_err(|m| format!("parsing {text:?} panics: {m}"))?)?;
    let sys = Sys::of(&cc)?;
    let fin = sys.class[&(sys.last, 2)];
    ensure!(sys.relevant[fin], "the last gate of {text:?} has no output");
    let used: Vec<(String, Fr)> = c.e.vars().into_iter().map(|n| (n.clone(), vars[&n])).collect();
    let mut chosen = vec![];
    ensure!(
        sys.variables(&used, &mut chosen, &mut 400),
        "the wires of {text:?} do not all follow from one cell class for each of its variables"
    );
    // the assignment in the circuit is the forced one; the final wire is claimed to be zero
    let given: HashMap<usize, Fr> = chosen.iter().zip(&used).map(|(c, v)| (*c, v.1)).collect();
    let forced = sys.propagate(&given)?;
    for (k, v) in &forced {
        for x in &sys.value[*k] {
            ensure!(x == v || (*k == fin && x.is_zero()), "a wire of {text:?} has another value than its gates force");
        }
    }
    ensure!(forced[&fin] == c.e.diff(&vars), "the final wire of {text:?} is not the difference of the sides");
    // for other values of the variables too
    for seed in [c.b, c.b ^ 0x55] {
        let vars = assign(seed);
        let given: HashMap<usize, Fr> = chosen.iter().zip(&used).map(|(c, v)| (*c, vars[&v.0])).collect();
        let forced = sys.propagate(&given).map_err(|m| format!("{text:?}: {m} for other values of the variables"))?;
        ensure!(forced[&fin] == c.e.diff(&vars), "the final wire of {text:?} is not the difference of the sides for other values");
    }
    // the circuit does not depend on the witnesses, however special they are
    let base = Polys::of(&cc);
    for seed in [c.a ^ 1, c.b, c.b ^ 2, c.a ^ c.b] {
        let vars = special(&c.e, seed);
        let cc = compiled(parse(&vars, &text).map_err(|m| format!("parsing {text:?} with special values panics: {m}"))?)?;
        let pl = Polys::of(&cc);
        ensure!(
            pl.n == base.n && pl.q == base.q && pl.s == base.s && pl.k1 == base.k1 && pl.k2 == base.k2,
            "the circuit of {text:?} depends on the values of its variables ({:?})",
            c.e.vars().iter().map(|n| (n.clone(), vars[n].to_string())).collect::<Vec<_>>()
        );
        let mine = Sys::of(&cc)?;
        let given: HashMap<usize, Fr> = chosen.iter().zip(&used).map(|(c, v)| (*c, vars[&v.0])).collect();
        let forced = sys.propagate(&given).map_err(|m| format!("{text:?}: {m} for special values"))?;
        for (k, v) in &forced {
            for x in &mine.value[*k] {
                ensure!(x == v || (*k == fin && x.is_zero()), "a wire of {text:?} has another value than its gates force, for special values of the variables");
            }
        }
    }
    cx.label(format!("{} variables", used.len().min(4)));
    cx.label_if(c.e.lhs.iter().chain([&c.e.rhs]).flatten().any(|f| f.neg), "negation");
    cx.label_if(c.e.lhs.iter().chain([&c.e.rhs]).flatten().any(|f| f.exp > 1), "power");
    cx.nt(!used.is_empty() && c.e.lhs.len() + c.e.lhs[0].len() > 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rhs {
    /// the left side's value, as a number, if it is one
    Num,
    /// a fresh variable, perhaps negated or with a factor
    Var(bool),
    Times(u32),
    /// the right side as generated, and one more variable on the left makes up for it
    Slack,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProveCase {
    e: Eqn,
    rhs: Rhs,
    /// small or random values
    small: bool,
    a: u64,
    s: Fe,
    /// breaks the equation
    wrong: Option<(u8, Fe)>,
}

fn slack() -> Term {
    vec![Factor { neg: false, atom: Atom::Var(9), exp: 1 }]
}

/// The equation and witnesses that satisfy it.
fn solved(c: &ProveCase) -> (Eqn, HashMap<String, Fr>) {
    let mut e = c.e.clone();
    let mut vars = assign(c.a);
    if c.small {
        let mut rng = StdRng::seed_from_u64(c.a);
        for v in NAMES.iter() {
            let k = rng.gen_range(0..7u64);
            vars.insert(v.to_string(), if rng.gen_bool(0.3) { -Fr::from(k) } else { Fr::from(k) });
        }
    }
    // variable 9 is the one that is solved for
    for t in e.lhs.iter_mut().chain([&mut e.rhs]) {
        for f in t.iter_mut() {
            if let Atom::Var(v) = &mut f.atom {
                if *v as usize % NAMES.len() == 9 {
                    *v = 0;
                }
            }
        }
    }
    let lhs = e.lhs_value(&vars);
    let as_num = |v: Fr| (0..2000u32).find(|k| Fr::from(*k) == v);
    match c.rhs {
        Rhs::Num if as_num(lhs).is_some() => e.rhs = vec![Factor { neg: false, atom: Atom::Num(as_num(lhs).unwrap()), exp: 1 }],
        Rhs::Num if as_num(-lhs).is_some() => e.rhs = vec![Factor { neg: true, atom: Atom::Num(as_num(-lhs).unwrap()), exp: 1 }],
        Rhs::Num | Rhs::Var(false) => {
            e.rhs = slack();
            vars.insert(name(9).into(), lhs);
        }
        Rhs::Var(true) => {
            e.rhs = slack();
            e.rhs[0].neg = true;
            vars.insert(name(9).into(), -lhs);
        }
        Rhs::Times(k) => {
            e.rhs = slack();
            e.rhs.insert(0, Factor { neg: k % 2 == 0, atom: Atom::Num(k % 100 + 1), exp: 1 });
            let v = lhs / Fr::from(k % 100 + 1);
            vars.insert(name(9).into(), if k % 2 == 0 { -v } else { v });
        }
        Rhs::Slack => {
            let d = Eqn::term_value(&e.rhs, &vars) - lhs;
            e.lhs.push(slack());
            vars.insert(name(9).into(), d);
        }
    }
    assert!(e.diff(&vars).is_zero());
    (e, vars)
}

fn p08_prove(c: &ProveCase, cx: &mut Cx) -> R {
    let (e, mut vars) = solved(c);
    if e.gates() > 160 {
        return cx.skip();
    }
    let used = e.vars();
    if let Some((k, d)) = &c.wrong {
        if !used.is_empty() {
            *vars.get_mut(&used[*k as usize % used.len()]).unwrap() += d.f::<Fr>();
        }
    }
    let diff = e.diff(&vars);
    let text = e.text();
    let cc = compiled(parse(&vars, &text).map_err(|m| format!("parsing {text:?} panics: {m}"))?)?;
    let s: Fr = c.s.f();
    let srs = Srs::new_from_secret(s, cc.size);
    let own = try_prove::<Sha256>(&cc, &srs);
    cx.label(match cc.size {
        0..=4 => "size up to 4",
        5..=16 => "size 8-16",
        _ => "size 32+",
    });
    if diff.is_zero() {
        let p = own.map_err(|m| format!("proving {text:?} with satisfying witnesses panics: {m}"))?;
        let r = judge::<Sha256>(&cc, &srs, &p);
        ensure!(r == Ok(Ok(())), "the proof of {text:?} with satisfying witnesses is rejected: {r:?}");
        cx.label("true");
        cx.nt(!used.is_empty());
        return Ok(());
    }
    cx.label("false");
    cx.nt(true);
    if let Ok(p) = own {
        ensure!(refused::<Sha256>(&cc, &srs, &p), "the proof of {text:?} with false witnesses is accepted");
    }
    let pl = Polys::of(&cc);
    for name in ["remainder dropped", "flat z", "no gates", "no copies", "evaluation 2 chosen"] {
        let p = prove_weak::<Sha256>(&pl, s, c.a, &cheat(name)).0;
        ensure!(refused::<Sha256>(&cc, &srs, &p), "a proof of {text:?} with false witnesses, made by cheating ({name}), is accepted");
    }
    // the same circuit with the true value on the final wire
    let sys = Sys::of(&cc)?;
    let mut f: Vec<Fr> = (0..pl.n).map(|i| pl.f[2].evaluate(&pl.domain().element(i))).collect();
    if sys.value[sys.class[&(sys.last, 2)]].len() == 1 {
        f[sys.last] = diff;
        let mut pl2 = pl.clone();
        pl2.f[2] = interp(&f);
        let p = prove::<Sha256>(&pl2, s, c.a);
        if !refused::<Sha256>(&cc, &srs, &p) {
            return Err(Fail {
                msg: format!("a proof of {text:?} with false witnesses is accepted when its prover puts the sides' difference on the final wire"),
                key: Some("final-sum-wire"),
            });
        }
    }
    Ok(())
}

fn f(neg: bool, atom: Atom, exp: u16) -> Factor {
    Factor { neg, atom, exp }
}
fn examples() -> Vec<Eqn> {
    use Atom::*;
    let v = |k| f(false, Var(k), 1);
    let n = |k| f(false, Num(k), 1);
    vec![
        // x*y+3*x^2+x*y*z=11
        Eqn { lhs: vec![vec![v(0), v(1)], vec![n(3), f(false, Var(0), 2)], vec![v(0), v(1), v(2)]], rhs: vec![n(11)] },
        Eqn { lhs: vec![vec![v(0)]], rhs: vec![n(1)] },
        Eqn { lhs: vec![vec![v(0)]], rhs: vec![f(true, Num(1), 1)] },
        Eqn { lhs: vec![vec![v(0)]], rhs: vec![v(0)] },
        Eqn { lhs: vec![vec![v(0)]], rhs: vec![f(true, Var(0), 1)] },
        Eqn { lhs: vec![vec![f(true, Var(0), 1)]], rhs: vec![f(true, Var(1), 3)] },
        Eqn { lhs: vec![vec![n(0)]], rhs: vec![n(0)] },
        Eqn { lhs: vec![vec![n(5)]], rhs: vec![f(true, Num(0), 1)] },
        Eqn { lhs: vec![vec![n(0)], vec![v(0)]], rhs: vec![v(0)] },
        Eqn { lhs: vec![vec![v(0)], vec![n(0)]], rhs: vec![n(0)] },
        Eqn { lhs: vec![vec![n(1), v(0)]], rhs: vec![v(1), n(0)] },
        Eqn { lhs: vec![vec![f(false, Zeros(2, 7), 2), v(0)]], rhs: vec![f(false, Zeros(1, 7), 1)] },
        Eqn { lhs: vec![vec![v(0), v(0)], vec![v(4)], vec![v(0), v(0)]], rhs: vec![v(4), v(4)] },
        Eqn { lhs: vec![vec![f(true, Var(0), 1), f(true, Var(0), 1)], vec![f(true, Num(3), 2)]], rhs: vec![f(true, Num(3), 1), f(true, Var(1), 2)] },
        Eqn { lhs: vec![vec![n(i32::MAX as u32)]], rhs: vec![f(true, Num(i32::MAX as u32), 1)] },
    ]
}

/// Long equations, high powers, many variables and constants.
fn long(huge: bool) -> Vec<Eqn> {
    use Atom::*;
    let v = |k: usize| f(false, Var(k as u8), 1);
    let mut all = vec![];
    for n in [9usize, 16, 17, 20, 33, 40, 64, 65, 100] {
        // a sum of products of different variables, of different constants, of one term
        all.push(Eqn { lhs: (0..n).map(|k| vec![v(k), v((k + 1) % n)]).collect(), rhs: vec![v(n / 2)] });
        all.push(Eqn { lhs: (0..n).map(|k| vec![f(k % 3 == 1, Num(1000 + k as u32), 1), v(k % 3)]).collect(), rhs: vec![v(1), f(true, Num(7), 1)] });
        all.push(Eqn { lhs: (0..n).map(|k| vec![v(0); 1 + usize::from(k + 1 == n)]).collect(), rhs: vec![v(0)] });
        // a product
        all.push(Eqn { lhs: vec![(0..n).map(|k| f(k % 2 == 1, Var(k as u8), 1)).collect()], rhs: vec![v(3), v(4)] });
        all.push(Eqn { lhs: vec![vec![v(0)], vec![v(1)]], rhs: (0..n).map(|k| f(k % 5 == 1, Var((k % 7) as u8), 1)).collect() });
    }
    for n in [7u16, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300] {
        all.push(Eqn { lhs: vec![vec![f(n % 2 == 1, Var(0), n)], vec![v(1)]], rhs: vec![f(false, Var(2), 1)] });
        all.push(Eqn { lhs: vec![vec![v(0)]], rhs: vec![f(n % 4 == 3, Var(1), n)] });
        all.push(Eqn { lhs: vec![vec![f(false, Num(3), n), v(0)]], rhs: vec![f(false, Num(2), 1)] });
    }
    if !huge {
        all.retain(|e| e.gates() < 150);
    }
    all
}

fn p08() -> Check {
    Check {
        id: "P08",
        assumptions: vec![GROUPS, "the right side of an equation is one product, '-' is a prefix of a factor, constants are below 2^31, as the parser has it", "-x^2 is -(x^2)"],
        subs: vec![
            Box::new(Sub {
                name: "meaning",
                rule: "random equations with random witnesses; the compiled gates and copy classes are solved from one class per variable, for the witnesses and for two other assignments, and the last wire is compared with the equation's own value; four assignments of few special values (0, 1, -1, the equation's numbers) must give the same circuit with forced wires. Non-trivial: a variable and more than one operation.",
                quick: 5000,
                thorough: 100000,
                examples: examples().into_iter().chain(long(true)).map(|e| MeaningCase { e, a: 1, b: 2 }).collect(),
                strat: || (eqn(), any::<u64>(), any::<u64>()).prop_map(|(e, a, b)| MeaningCase { e, a, b }).boxed(),
                run: p08_meaning,
            }),
            Box::new(Sub {
                name: "proofs",
                rule: "equations solved for a constant or variable, with witnesses that satisfy them or not; true ones must prove and verify, false ones must get no accepted proof from the repository's prover or five cheating ones. Non-trivial: a variable, or false.",
                quick: 500,
                thorough: 10000,
                examples: examples()
                    .into_iter()
                    .chain(long(false).into_iter().step_by(3))
                    .flat_map(|e| {
                        [None, Some((0, Fe::One))].map(|wrong| ProveCase { e: e.clone(), rhs: Rhs::Slack, small: true, a: 3, s: Fe::R(1), wrong })
                    })
                    .collect(),
                strat: || {
                    let rhs = prop_oneof![2 => Just(Rhs::Num), 1 => any::<bool>().prop_map(Rhs::Var), 1 => any::<u32>().prop_map(Rhs::Times), 2 => Just(Rhs::Slack)];
                    let wrong = prop_oneof![1 => Just(None), 1 => (any::<u8>(), fe_nz()).prop_map(Some)];
                    (eqn(), rhs, any::<bool>(), any::<u64>(), crate::plonk_checks::generic(), wrong)
                        .prop_map(|(e, rhs, small, a, s, wrong)| ProveCase { e, rhs, small, a, s, wrong })
                        .boxed()
                },
                run: p08_prove,
            }),
        ],
    }
}

// ---------------------------------------------------------------- P09

fn cpi(text: &str, s: Fr, n: usize) -> Result<CommonPreprocessedInput, String> {
    let scheme = KzgScheme::new(Srs::new_from_secret(s, n));
    catch(|| CPIGenerator::default().compute_common_preprocessed_input(text, scheme))?
}
fn cpi_fields(c: &CommonPreprocessedInput) -> (usize, Fr, Fr, Vec<ark_bls12_381::G1Affine>, Vec<Fr>) {
    (
        c.n,
        c.k1,
        c.k2,
        [&c.com_q_lx, &c.com_q_rx, &c.com_q_mx, &c.com_q_ox, &c.com_q_cx, &c.com_s_sigma_1, &c.com_s_sigma_2, &c.com_s_sigma_3].map(|x| x.0).to_vec(),
        c.pi_x.coeffs.clone(),
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SpellCase {
    e: Eqn,
    a: u64,
    seeds: Vec<u64>,
    cpi: bool,
}

fn p09_spelling(c: &SpellCase, cx: &mut Cx) -> R {
    let vars = assign(c.a);
    let text = c.e.text();
    let base = parse(&vars, &text).map_err(|m| format!("parsing {text:?} panics: {m}"))?;
    let n = c.e.gates() * 3 + 8;
    let base_cpi = if c.cpi { Some(cpi_fields(&cpi(&text, Fr::from(5u64), n).map_err(|m| format!("preprocessing {text:?} fails: {m}"))?)) } else { None };
    let mut other = false;
    for seed in &c.seeds {
        let t = c.e.spell(*seed);
        other |= t != text;
        let got = parse(&vars, &t).map_err(|m| format!("parsing {t:?}, a spelling of {text:?}, panics: {m}"))?;
        ensure!(got == base, "{t:?} parses to another circuit than {text:?}");
        if let Some(b) = &base_cpi {
            let got = cpi(&t, Fr::from(5u64), n).map_err(|m| format!("preprocessing {t:?}, a spelling of {text:?}, fails: {m}"))?;
            ensure!(cpi_fields(&got) == *b, "{t:?} is preprocessed to another input than {text:?}");
        }
    }
    cx.label_if(c.cpi, "preprocessed too");
    cx.nt(other);
    Ok(())
}

/// The reference grammar. `None`: not an equation; `Some(None)`: out of what is specified.
fn grammar(text: &str) -> Option<Option<Eqn>> {
    let t: String = text.to_lowercase().chars().filter(|c| *c != ' ').collect();
    if t.contains(char::is_whitespace) {
        // the parser trims factors
        return Some(None);
    }
    for e in t.split('^').skip(1) {
        let d: String = e.chars().take_while(char::is_ascii_digit).collect();
        // too long to write out
        if d.parse::<u64>().is_ok_and(|d| d > 300 && d <= i32::MAX as u64) {
            return Some(None);
        }
    }
    let sides: Vec<&str> = t.split('=').collect();
    if sides.len() != 2 {
        return None;
    }
    let mut out = true;
    let mut term = |t: &str| -> Option<Term> {
        t.split('*')
            .map(|x| {
                let (neg, x) = match x.strip_prefix('-') {
                    Some(x) => (true, x),
                    None => (false, x),
                };
                if x.starts_with('-') || (x.starts_with('+') && x[1..].starts_with(|c: char| c.is_ascii_digit())) {
                    out = false;
                    return Some(f(neg, Atom::Num(0), 1));
                }
                let (base, exp) = match x.split_once('^') {
                    None => (x, 1),
                    Some((b, e)) => {
                        if e.is_empty() || !e.bytes().all(|c| c.is_ascii_digit()) {
                            return None;
                        }
                        match e.parse::<u64>() {
                            Ok(d) if d > 0 && d <= 300 => (b, d as u16),
                            _ => return None,
                        }
                    }
                };
                if let Some(v) = NAMES.iter().position(|n| *n == base) {
                    return Some(f(neg, Atom::Var(v as u8), exp));
                }
                if base.is_empty() || !base.bytes().all(|c| c.is_ascii_digit()) {
                    return None;
                }
                let d = base.trim_start_matches('0');
                let z = (base.len() - d.len()) as u8;
                if d == "2147483648" {
                    out = false;
                    return Some(f(neg, Atom::Num(0), 1));
                }
                let d = if d.is_empty() { 0 } else { d.parse::<u64>().ok().filter(|d| *d <= i32::MAX as u64)? as u32 };
                // the parser keeps the spelling of a number
                Some(f(neg, if d == 0 { if z == 1 { Atom::Num(0) } else { Atom::Zeros(z - 1, 0) } } else if z == 0 { Atom::Num(d) } else { Atom::Zeros(z, d) }, exp))
            })
            .collect()
    };
    let mut lhs = vec![];
    let mut bad = false;
    for t in sides[0].split('+') {
        match term(t) {
            Some(t) => lhs.push(t),
            None => bad = true,
        }
    }
    let rhs = term(sides[1]);
    if bad || rhs.is_none() {
        return if out { None } else { Some(None) };
    }
    Some(out.then_some(Eqn { lhs, rhs: rhs.unwrap() }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TextEdit {
    Del(u16),
    Ins(u16, char),
    Put(u16, char),
    Dup(u16, u8),
    Cut(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextCase {
    /// a text, or an equation's
    raw: Option<String>,
    e: Eqn,
    spell: u64,
    edits: Vec<TextEdit>,
    a: u64,
}

fn p09_text(c: &TextCase, cx: &mut Cx) -> R {
    let mut t: Vec<char> = match &c.raw {
        Some(t) => t.chars().collect(),
        None => c.e.spell(c.spell).chars().collect(),
    };
    for e in &c.edits {
        let n = t.len();
        match e {
            TextEdit::Del(i) if n > 0 => {
                t.remove(idx(*i, n));
            }
            TextEdit::Ins(i, c) => t.insert(idx(*i, n + 1), *c),
            TextEdit::Put(i, c) if n > 0 => t[idx(*i, n)] = *c,
            TextEdit::Dup(i, k) if n > 0 => {
                let i = idx(*i, n);
                let part: Vec<char> = t[i..].iter().take(*k as usize % 4 + 1).copied().collect();
                t.splice(i..i, part);
            }
            TextEdit::Cut(i) => t.truncate(idx(*i, n + 1)),
            _ => {}
        }
    }
    let t: String = t.into_iter().collect();
    let vars = assign(c.a);
    let meaning = grammar(&t);
    if let Some(None) = meaning {
        return cx.skip();
    }
    let got = parse(&vars, &t);
    match meaning {
        None => {
            ensure!(got.is_err(), "{t:?} is no equation and is parsed to a circuit all the same");
            cx.label("malformed");
            cx.nt(true);
        }
        Some(None) => {}
        Some(Some(e)) => {
            let text = e.text();
            let want = parse(&vars, &text).map_err(|m| format!("parsing {text:?} panics: {m}"))?;
            let got = got.map_err(|m| format!("parsing {t:?} panics: {m}"))?;
            ensure!(got == want, "{t:?} is parsed to another circuit than {text:?}");
            // it means what the reference grammar reads
            let sys = Sys::of(&compiled(got)?)?;
            let used: Vec<(String, Fr)> = e.vars().into_iter().map(|n| (n.clone(), vars[&n])).collect();
            let mut chosen = vec![];
            ensure!(sys.variables(&used, &mut chosen, &mut 400), "the wires of {t:?} do not follow from its variables");
            let given: HashMap<usize, Fr> = chosen.iter().zip(&used).map(|(c, v)| (*c, v.1)).collect();
            let forced = sys.propagate(&given)?;
            ensure!(forced[&sys.class[&(sys.last, 2)]] == e.diff(&vars), "{t:?} is given another meaning");
            cx.label("well-formed");
            cx.nt(t.to_lowercase() != text);
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UnknownCase {
    e: Eqn,
    drop: u8,
    a: u64,
}
fn p09_unknown(c: &UnknownCase, cx: &mut Cx) -> R {
    let used = c.e.vars();
    if used.is_empty() {
        return cx.skip();
    }
    let mut vars = assign(c.a);
    let gone = &used[c.drop as usize % used.len()];
    vars.remove(gone);
    let text = c.e.text();
    ensure!(parse(&vars, &text).is_err(), "{text:?} is parsed without a witness for {gone}");
    cx.nt(true);
    Ok(())
}

fn p09() -> Check {
    let raw = |t: &str| TextCase { raw: Some(t.into()), e: examples()[0].clone(), spell: 0, edits: vec![], a: 1 };
    Check {
        id: "P09",
        assumptions: vec!["two equal circuits (PartialEq) are the same circuit", "a refusal is a panic of parse or an error", "'--', a plus sign before a number of the right side, white space other than the space character, and the number 2147483648 are left open"],
        subs: vec![
            Box::new(Sub {
                name: "spelling",
                rule: "random equations and up to four other spellings each (spaces anywhere, letter case, powers split and written as products or x^k or x^0k); circuits and preprocessed inputs must be equal. Non-trivial: some spelling differs from the plain text.",
                quick: 3000,
                thorough: 60000,
                examples: examples()
                    .into_iter()
                    .map(|e| SpellCase { e, a: 1, seeds: vec![1, 2, 3, 4, 5, 6, 7, 8], cpi: true })
                    .chain(long(true).into_iter().enumerate().map(|(k, e)| SpellCase { cpi: k % 8 == 0 && e.gates() < 150, e, a: 1, seeds: vec![1, 2, 3, 4, 5, 6] }))
                    .collect(),
                strat: || {
                    (eqn(), any::<u64>(), prop::collection::vec(any::<u64>(), 1..4), prop::bool::weighted(0.1))
                        .prop_map(|(e, a, seeds, cpi)| SpellCase { e, a, seeds, cpi })
                        .boxed()
                },
                run: p09_spelling,
            }),
            Box::new(Sub {
                name: "text",
                rule: "spellings of equations with 1-4 random edits of characters; an independent grammar says whether the text is an equation and which; malformed ones must be refused, others must be parsed to their equation's circuit. Non-trivial: malformed, or not plain.",
                quick: 20000,
                thorough: 400000,
                examples: vec![
                    raw(""), raw("="), raw("x"), raw("x="), raw("=x"), raw("x=1=1"), raw("x+=1"), raw("+x=1"), raw("x++y=1"), raw("x**y=1"), raw("*x=1"), raw("x*=1"),
                    raw("x^=1"), raw("^2=1"), raw("x^0=1"), raw("x^-1=1"), raw("x^y=1"), raw("x^2^2=1"), raw("x^2y=1"), raw("2x=1"), raw("x-y=1"), raw("x=1+1"), raw("x=y+1"),
                    raw("x=1-1"), raw("-=1"), raw("x=-"), raw("x*-=1"), raw("q=1"), raw("x=99999999999"), raw("x=2147483647"), raw("x = 0"), raw("X=1"), raw("x\t=1"), raw("x^2 *y=1"),
                    raw("x^1=1"), raw("x^00=1"), raw("(x)=1"), raw("x/2=1"), raw("x=1.5"), raw("é=1"), raw("x=é"), raw("-x^2=-y^2"), raw("x^٣=1"), raw("x^²=1"), raw("x^99999999999=1"),
                ],
                strat: || {
                    let ch = || {
                        prop_oneof![
                            8 => prop::sample::select("xyzw0129+-*^==  ".chars().collect::<Vec<_>>()),
                            1 => prop::sample::select("XaAbe_q./()\t\n".chars().collect::<Vec<_>>()),
                            1 => prop::sample::select("é²٣−＋İ".chars().collect::<Vec<_>>()),
                        ]
                    };
                    let ed = prop_oneof![
                        3 => any::<u16>().prop_map(TextEdit::Del),
                        3 => (any::<u16>(), ch()).prop_map(|(a, b)| TextEdit::Ins(a, b)),
                        3 => (any::<u16>(), ch()).prop_map(|(a, b)| TextEdit::Put(a, b)),
                        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| TextEdit::Dup(a, b)),
                        1 => any::<u16>().prop_map(TextEdit::Cut),
                    ];
                    let raw = prop_oneof![12 => Just(None), 1 => prop::collection::vec(ch(), 0..12).prop_map(|v| Some(v.into_iter().collect()))];
                    (raw, eqn(), any::<u64>(), prop::collection::vec(ed, 1..5), any::<u64>()).prop_map(|(raw, e, spell, edits, a)| TextCase { raw, e, spell, edits, a }).boxed()
                },
                run: p09_text,
            }),
            Box::new(Sub {
                name: "unknown",
                rule: "equations with a witness for all but one of their variables must be refused. Every case is non-trivial.",
                quick: 1500,
                thorough: 30000,
                examples: vec![],
                strat: || (eqn(), any::<u8>(), any::<u64>()).prop_map(|(e, drop, a)| UnknownCase { e, drop, a }).boxed(),
                run: p09_unknown,
            }),
        ],
    }
}

// ---------------------------------------------------------------- P10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CpiCase {
    e: Eqn,
    a: u64,
    b: u64,
    spell: u64,
    s: Fe,
    small: bool,
    extra: u8,
}

fn p10_match(c: &CpiCase, cx: &mut Cx) -> R {
    let text = c.e.spell(c.spell);
    let s: Fr = c.s.f();
    let mut size = 0;
    let mut all = vec![];
    let mut all_vars = vec![assign(c.a), assign(c.b)];
    if c.small {
        all_vars.extend([special(&c.e, c.a), special(&c.e, c.b), special(&c.e, c.b ^ 1)]);
    }
    for vars in &all_vars {
        let cc = compiled(parse(vars, &text).map_err(|m| format!("parsing {text:?} panics: {m}"))?)?;
        size = cc.size;
        let (g, k) = (cc.gate_constraints(), cc.copy_constraints());
        all.push((
            cc.size,
            *k.k1(),
            *k.k2(),
            [g.q_lx(), g.q_rx(), g.q_mx(), g.q_ox(), g.q_cx(), k.s_sigma_1(), k.s_sigma_2(), k.s_sigma_3()].map(|p| g1(p.evaluate(&s))).to_vec(),
            trim(g.pi_x().coeffs.clone()),
        ));
    }
    let mut got = cpi_fields(&cpi(&text, s, size + c.extra as usize).map_err(|m| format!("preprocessing {text:?} fails: {m}"))?);
    got.4 = trim(got.4);
    for want in &all {
        for (what, ok) in [
            ("the size", got.0 == want.0),
            ("the coset constants", (got.1, got.2) == (want.1, want.2)),
            ("q_l", got.3[0] == want.3[0]),
            ("q_r", got.3[1] == want.3[1]),
            ("q_m", got.3[2] == want.3[2]),
            ("q_o", got.3[3] == want.3[3]),
            ("q_c", got.3[4] == want.3[4]),
            ("sigma_1", got.3[5] == want.3[5]),
            ("sigma_2", got.3[6] == want.3[6]),
            ("sigma_3", got.3[7] == want.3[7]),
            ("the public-input polynomial", got.4 == want.4),
        ] {
            ensure!(ok, "{what} of the preprocessed input of {text:?} is not that of the prover's circuit");
        }
    }
    cx.label(format!("size {size}"));
    cx.label_if(c.small, "special values");
    cx.nt(size > 2);
    Ok(())
}

fn p10() -> Check {
    Check {
        id: "P10",
        assumptions: vec![GROUPS],
        subs: vec![Box::new(Sub {
            name: "match",
            rule: "random equations in random spellings; the preprocessed input is compared with the polynomials of the circuits that the prover's parser makes with two random witness assignments, and in half of the cases three of few special values. Non-trivial: size above 2.",
            quick: 1500,
            thorough: 30000,
            examples: examples().into_iter().chain(long(true).into_iter().step_by(2)).map(|e| CpiCase { e, a: 1, b: 2, spell: 3, s: Fe::R(1), small: true, extra: 0 }).collect(),
            strat: || {
                (eqn(), any::<u64>(), any::<u64>(), any::<u64>(), secret(), any::<bool>(), 0u8..5)
                    .prop_map(|(e, a, b, spell, s, small, extra)| CpiCase { e, a, b, spell, s, small, extra })
                    .boxed()
            },
            run: p10_match,
        })],
    }
}

// ---------------------------------------------------------------- P11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// a witness, perhaps for a name that has one
    Witness(u8, Fe),
    /// all of them again, in another order
    Readd(u64),
    /// an equation of the pool, in a spelling
    Parse(u8, u64),
    /// something that is no equation
    Junk(u8),
    /// the equation's preprocessed input
    Preprocess(u8, u64),
    /// in another thread
    Elsewhere(u8, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HistoryCase {
    pool: Vec<Eqn>,
    ops: Vec<Op>,
}

const JUNK: [&str; 10] = ["", "x", "x=1=1", "x+=1", "x**y=1", "nobody=1", "x^=1", "x=", "x^y=2", "x*nobody+y=z"];

fn p11_history(c: &HistoryCase, cx: &mut Cx) -> R {
    let mut p = Parser::default();
    let mut model: HashMap<String, Fr> = HashMap::new();
    // the circuit of an equation by a parser that has been used for nothing else, with the witnesses it needs
    let fresh = |e: &Eqn, model: &HashMap<String, Fr>| -> Option<Result<Circuit, String>> {
        let need: Option<HashMap<String, Fr>> = e.vars().into_iter().map(|n| model.get(&n).map(|v| (n, *v))).collect();
        need.map(|v| parse(&v, &e.text()))
    };
    let (mut parses, mut refusals, mut changes) = (0, 0, 0);
    let mut cpis: HashMap<u8, (usize, Fr, Fr, Vec<ark_bls12_381::G1Affine>, Vec<Fr>)> = HashMap::new();
    for (k, op) in c.ops.iter().enumerate() {
        match op {
            Op::Witness(n, v) => {
                let v: Fr = v.f();
                p.add_witness(name(*n), v);
                if model.insert(name(*n).into(), v).is_some_and(|o| o != v) && parses > 0 {
                    changes += 1;
                }
            }
            Op::Readd(seed) => {
                let mut all: Vec<_> = model.iter().map(|(k, v)| (k.clone(), *v)).collect();
                all.sort();
                let mut rng = StdRng::seed_from_u64(*seed);
                for i in (1..all.len()).rev() {
                    all.swap(i, rng.gen_range(0..=i));
                }
                for (n, v) in all {
                    p.add_witness(&n, v);
                }
            }
            Op::Parse(e, seed) | Op::Elsewhere(e, seed) => {
                let e = &c.pool[*e as usize % c.pool.len()];
                let text = e.spell(*seed);
                let elsewhere = matches!(op, Op::Elsewhere(..));
                let got = if elsewhere {
                    std::thread::scope(|s| s.spawn(|| catch(|| p.parse(&text))).join().unwrap())
                } else {
                    catch(|| p.parse(&text))
                };
                match fresh(e, &model) {
                    None => {
                        ensure!(got.is_err(), "operation {k}: {text:?} is parsed without all its witnesses");
                        refusals += 1;
                    }
                    Some(want) => {
                        let want = want.map_err(|m| format!("operation {k}: a new parser panics on {text:?}: {m}"))?;
                        let got = got.map_err(|m| format!("operation {k}: a parser with a history panics on {text:?}: {m}"))?;
                        ensure!(got == want, "operation {k}: a parser with a history makes another circuit of {text:?} than a new one with the same witnesses");
                        parses += 1;
                    }
                }
            }
            Op::Junk(j) => {
                let t = JUNK[*j as usize % JUNK.len()];
                ensure!(catch(|| p.parse(t)).is_err(), "operation {k}: {t:?} is parsed");
                refusals += 1;
            }
            Op::Preprocess(e, seed) => {
                let at = *e as usize % c.pool.len();
                let eq = &c.pool[at];
                let text = eq.spell(*seed);
                let n = eq.gates() * 3 + 8;
                let got = cpi_fields(&cpi(&text, Fr::from(5u64), n).map_err(|m| format!("operation {k}: preprocessing {text:?} fails: {m}"))?);
                match cpis.get(&(at as u8)) {
                    Some(was) => ensure!(*was == got, "operation {k}: {text:?} is preprocessed to another input than before"),
                    None => {
                        cpis.insert(at as u8, got);
                    }
                }
            }
        }
        let mut now: Vec<_> = p.witnesses.iter().map(|(k, v)| (k.clone(), *v)).collect();
        let mut want: Vec<_> = model.iter().map(|(k, v)| (k.clone(), *v)).collect();
        now.sort();
        want.sort();
        ensure!(now == want, "operation {k}: the parser's witnesses are not those that were added last");
    }
    cx.label_if(refusals > 0, "a refused text");
    cx.label_if(changes > 0, "a witness changed after a parse");
    cx.label_if(parses > 2, "three or more parses");
    cx.nt(parses > 1);
    Ok(())
}

/// Few variables, so that the equations of a pool share them.
fn small_eqn() -> BoxedStrategy<Eqn> {
    eqn()
        .prop_map(|mut e| {
            for f in e.lhs.iter_mut().chain([&mut e.rhs]).flatten() {
                if let Atom::Var(v) = &mut f.atom {
                    *v %= 4;
                }
            }
            e
        })
        .boxed()
}
fn p11() -> Check {
    Check {
        id: "P11",
        assumptions: vec!["two equal circuits (PartialEq) are the same circuit", "a refusal is a panic of parse or an error"],
        subs: vec![Box::new(Sub {
            name: "history",
            rule: "one parser through up to 24 operations: witnesses added, changed and added again, equations of a pool that share variables parsed in any spelling, texts that are refused, parses in other threads, preprocessing in between; each circuit must be that of a new parser that has the equation's witnesses only. Non-trivial: two or more parses.",
            quick: 3000,
            thorough: 60000,
            examples: vec![],
            strat: || {
                let op = prop_oneof![
                    5 => (0u8..6, fe()).prop_map(|(n, v)| Op::Witness(n, v)),
                    1 => any::<u64>().prop_map(Op::Readd),
                    6 => (any::<u8>(), any::<u64>()).prop_map(|(e, s)| Op::Parse(e, s)),
                    2 => any::<u8>().prop_map(Op::Junk),
                    1 => (any::<u8>(), any::<u64>()).prop_map(|(e, s)| Op::Preprocess(e, s)),
                    1 => (any::<u8>(), any::<u64>()).prop_map(|(e, s)| Op::Elsewhere(e, s)),
                ];
                let all = prop::collection::vec(fe(), 4).prop_map(|v| v.into_iter().enumerate().map(|(k, v)| Op::Witness(k as u8, v)).collect::<Vec<_>>());
                (prop::collection::vec(small_eqn(), 1..4), prop::bool::weighted(0.8), all, prop::collection::vec(op, 2..24))
                    .prop_map(|(pool, first, mut all, ops)| {
                        if !first {
                            all.clear();
                        }
                        all.extend(ops);
                        HistoryCase { pool, ops: all }
                    })
                    .boxed()
            },
            run: p11_history,
        })],
    }
}
