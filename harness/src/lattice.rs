//! Are there small numbers behind a linear relation modulo the scalar field's order?

use ark_bls12_381::Fr;
use ark_ff::{BigInteger, PrimeField};
use num_bigint::{BigInt, Sign};

type V = Vec<BigInt>;

fn int(x: Fr) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, &x.into_bigint().to_bytes_le())
}
fn dot(a: &V, b: &V) -> BigInt {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
/// a / b, rounded to the nearest
fn round(a: &BigInt, b: &BigInt) -> BigInt {
    let two = BigInt::from(2);
    let (n, d) = (a * &two + b, b * &two);
    // floor, for a positive divisor
    let q = &n / &d;
    if (&q * &d) > n {
        q - 1
    } else {
        q
    }
}
fn sub(a: &mut V, b: &V, k: &BigInt) {
    for (x, y) in a.iter_mut().zip(b) {
        *x -= y * k;
    }
}

/// Subtracts the combination of `basis` (one or two vectors) that makes `v` about as short as it gets.
fn reduce(v: &mut V, basis: &[V]) {
    match basis {
        [a] => {
            let k = round(&dot(v, a), &dot(a, a));
            sub(v, a, &k);
        }
        [a, b] => {
            let (aa, ab, bb) = (dot(a, a), dot(a, b), dot(b, b));
            let (va, vb) = (dot(v, a), dot(v, b));
            let det = &aa * &bb - &ab * &ab;
            let x = round(&(&va * &bb - &vb * &ab), &det);
            let y = round(&(&vb * &aa - &va * &ab), &det);
            sub(v, a, &x);
            sub(v, b, &y);
            // the neighbours
            let mut best = v.clone();
            for i in -1..=1 {
                for j in -1..=1 {
                    let mut w = v.clone();
                    sub(&mut w, a, &BigInt::from(i));
                    sub(&mut w, b, &BigInt::from(j));
                    if dot(&w, &w) < dot(&best, &best) {
                        best = w;
                    }
                }
            }
            *v = best;
        }
        _ => {}
    }
}

/// Bits of the smallest numbers x_i, about, with sum(c_i * x_i) = t, for two or
/// three coefficients, the last of which is one.
pub fn smallest(c: &[Fr], t: Fr) -> u64 {
    let k = c.len();
    let unit = |i: usize, last: BigInt| {
        let mut v = vec![BigInt::from(0); k];
        v[i] = BigInt::from(1);
        v[k - 1] = last;
        v
    };
    let order = BigInt::from_bytes_le(Sign::Plus, &Fr::MODULUS.to_bytes_le());
    let mut m: Vec<V> = (0..k - 1).map(|i| unit(i, int(-c[i]))).collect();
    m.push(unit(k - 1, order));
    // greedy reduction: the longest by the others
    loop {
        m.sort_by_key(|v| dot(v, v));
        let before = dot(&m[k - 1], &m[k - 1]);
        if k == 3 {
            // the first two among themselves
            loop {
                let (a, b) = m.split_at_mut(1);
                let old = dot(&b[0], &b[0]);
                reduce(&mut b[0], &a[..1]);
                if dot(&b[0], &b[0]) < dot(&a[0], &a[0]) {
                    m.swap(0, 1);
                } else if dot(&m[1], &m[1]) >= old || k == 2 {
                    break;
                }
            }
        }
        let (a, b) = m.split_at_mut(k - 1);
        reduce(&mut b[0], a);
        if dot(&m[k - 1], &m[k - 1]) >= before {
            break;
        }
    }
    // the vector of the relation nearest to zero
    let mut v = vec![BigInt::from(0); k];
    v[k - 1] = int(t);
    if k == 2 {
        // the components along the two reduced vectors
        reduce(&mut v, &m[..2]);
    } else {
        // nearest plane: orthogonal part of the last vector by cross product
        let cross = |a: &V, b: &V| -> V { vec![&a[1] * &b[2] - &a[2] * &b[1], &a[2] * &b[0] - &a[0] * &b[2], &a[0] * &b[1] - &a[1] * &b[0]] };
        let n = cross(&m[0], &m[1]);
        let (mut d, mut x) = (dot(&m[2], &n), dot(&v, &n));
        if d < BigInt::from(0) {
            (d, x) = (-d, -x);
        }
        let y = round(&x, &d);
        sub(&mut v, &m[2].clone(), &y);
        let (a, _) = m.split_at(2);
        reduce(&mut v, a);
    }
    v.iter().map(|x| x.bits()).max().unwrap_or(0)
}

#[cfg(test)]
mod tests {
    use super::*;
    use ark_ff::UniformRand;

    #[test]
    fn finds_small() {
        let mut rng = ark_std::test_rng();
        for _ in 0..200 {
            let c: Vec<Fr> = vec![Fr::rand(&mut rng), Fr::rand(&mut rng), Fr::from(1u64)];
            let b: Vec<Fr> = (0..3).map(|_| Fr::from(u64::rand(&mut rng))).collect();
            let t = c[0] * b[0] + c[1] * b[1] + c[2] * b[2];
            assert!(smallest(&c, t) <= 64);
            let t = c[1] * b[1] - c[2] * b[2];
            assert!(smallest(&c[1..], t) <= 64);
            let t = Fr::rand(&mut rng);
            assert!(smallest(&c, t) > 75, "{}", smallest(&c, t));
            assert!(smallest(&c[1..], t) > 115, "{}", smallest(&c[1..], t));
        }
    }
}
