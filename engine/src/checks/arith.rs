//! P01 transforms, P03 polynomial helpers.
use super::util::*;
use crate::core::*;
use crate::symgroup::G;
use ff::{Field, WithSmallOrderMulGroup};
use halo2_proofs::arithmetic::*;
use halo2_proofs::poly::EvaluationDomain;
use pasta_curves::Fp;

pub fn p01(cx: &mut Cx) {
    cx.functions(&[
        "arithmetic::best_fft",
        "arithmetic::recursive_butterfly_arithmetic",
        "arithmetic::parallelize",
        "EvaluationDomain::{new,lagrange_to_coeff,coeff_to_extended,extended_to_coeff,divide_by_vanishing_poly,rotate_extended,rotate_omega,l_i_range,constant_*,empty_*,lagrange_from_vec,coeff_from_vec,getters}",
        "Polynomial::rotate",
    ]);
    let deep = tier_thorough();
    let kmax = if deep { 6 } else { 5 };
    let threads: &[usize] = if deep { &[1, 2, 3, 4, 5, 6, 7, 8, 16] } else { &[1, 2, 3, 4, 8] };
    cx.bound(&format!("FFT sizes 2^0..2^{}, pools of {:?} threads", kmax, threads));
    cx.bound("domains with k=1..4 (k=5 thorough) and constraint degree j=2..6 (2..10 thorough), rotations -n..n plus extreme i32 rotations");
    cx.assume("x is outside the domain for Lagrange-basis evaluations (x = w^i is excluded by the statement)");
    for t in threads.iter().copied() {
        for k in 0..=kmax {
            if k as usize >= 5 && t != 1 && t != 4 && !deep {
                continue;
            }
            cx.run(&format!("fft/k{}/threads{}", k, t), |h| {
                let n = 1usize << k;
                let a = h.fps("a", n);
                let mut b = a.clone();
                let w = root(k);
                pool(t, || best_fft(&mut b, w, k));
                let want: Vec<Fp> =
                    (0..n).map(|i| sum((0..n).map(|j| a[j] * wpow(k, (i * j) as i64)))).collect();
                h.eqs("dft", &b, &want);
            });
        }
    }
    for k in 1..=3u32 {
        cx.run(&format!("fft-group/k{}", k), |h| {
            let n = 1usize << k;
            let a: Vec<G> = (0..n).map(|i| h.gen(&format!("A{}", i))).collect();
            let s = h.fp("s");
            let a: Vec<G> = a.iter().enumerate().map(|(i, g)| if i == 0 { *g * s } else { *g }).collect();
            let mut b = a.clone();
            best_fft(&mut b, root(k), k);
            for i in 0..n {
                let want = gsum((0..n).map(|j| a[j] * wpow(k, (i * j) as i64)));
                h.geq(&format!("dft[{}]", i), b[i], want);
            }
        });
    }
    cx.witness("fft/wrong-direction", |h| {
        let a = h.fps("a", 4);
        let mut b = a.clone();
        best_fft(&mut b, root(2), 2);
        let want: Vec<Fp> = (0..4).map(|i| sum((0..4).map(|j| a[j] * wpow(2, -((i * j) as i64))))).collect();
        h.eqs("dft", &b, &want);
    });
    // pools of other sizes: every FFT agrees with the one-thread result (itself equal to the DFT above)
    let (kd, jd) = if deep { (5, 10) } else { (4, 6) };
    for k in 1..=kd {
        for j in 2..=jd {
            let t = [1usize, 2, 3, 4][(k as usize + j as usize) % 4];
            if (1u64 << k) * (j as u64 - 1) > 140 {
                continue;
            }
            cx.run(&format!("domain/k{}/j{}/threads{}", k, j, t), |h| pool_h(t, h, |h| domain(h, k, j as u32)));
        }
    }
    for k in 0..=6u32 {
        cx.run(&format!("domain/rotations/k{}", k), |h| {
            let d = EvaluationDomain::<Fp>::new(3, k);
            let v = h.fp("v");
            let n = 1i32 << k;
            let mut rs: Vec<i32> = (-n..=n).collect();
            rs.extend([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 1 << 30, -(1 << 30), 12345677, -7654321]);
            for r in rs {
                h.eq(&format!("rotate_omega({})", r), d.rotate_omega(v, rot(r)), v * wpow(k, r as i64));
            }
        });
    }
    cx.run("domain/large-k", |h| {
        // constants of big domains: generator orders, extended sizes, quotient degree
        for k in [8u32, 11, 14, 17, 20] {
            for j in [2u32, 3, 4, 5, 6, 9, 17] {
                if k == 20 && j > 4 {
                    continue;
                }
                dom_consts(h, k, j);
            }
        }
    });
}

/// runs a harness body inside a pool (the body itself stays on one thread of the pool)
pub fn pool_h(t: usize, h: &mut H, f: impl FnOnce(&mut H) + Send) {
    rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap().install(|| f(h))
}

fn dom_consts(h: &mut H, k: u32, j: u32) -> u32 {
    let d = EvaluationDomain::<Fp>::new(j, k);
    let n = 1u64 << k;
    let mut ek = k;
    while (1u64 << ek) < n * (j as u64 - 1) {
        ek += 1;
    }
    let l = format!("k{}j{}", k, j);
    h.ok(&format!("{} extended_len minimal power of two holding the quotient", l), d.extended_len() == 1usize << ek);
    h.ok(&format!("{} quotient degree", l), d.get_quotient_poly_degree() == (j - 1) as usize);
    h.eq(&format!("{} omega", l), d.get_omega(), root(k));
    h.eq(&format!("{} omega_inv", l), d.get_omega_inv() * root(k), Fp::one());
    h.eq(&format!("{} extended omega", l), d.get_extended_omega(), root(ek));
    ek
}

fn domain(h: &mut H, k: u32, j: u32) {
    let n = 1usize << k;
    let d = EvaluationDomain::<Fp>::new(j, k);
    let ek = dom_consts(h, k, j);
    let en = 1usize << ek;
    let zeta = Fp::ZETA;
    let pts: Vec<Fp> = (0..en).map(|i| zeta * wpow(ek, i as i64)).collect();
    // Lagrange -> coefficients
    let v = h.fps("v", n);
    let p = d.lagrange_from_vec(v.clone());
    let c = d.lagrange_to_coeff(p.clone());
    h.ok("coefficient count", c.len() == n);
    for i in 0..n {
        h.eq(&format!("interpolates at w^{}", i), ev(&c[..], wpow(k, i as i64)), v[i]);
    }
    // coefficients -> extended coset
    let a = h.fps("a", n);
    let e = d.coeff_to_extended(d.coeff_from_vec(a.clone()));
    h.ok("extended size", e.len() == en);
    for i in 0..en {
        h.eq(&format!("coset evaluation {}", i), e[i], ev(&a, pts[i]));
    }
    // extended -> coefficients of the quotient
    let q = n * (j as usize - 1);
    let b = h.fps("b", q);
    let mut ext = d.empty_extended();
    for i in 0..en {
        ext[i] = ev(&b, pts[i]);
    }
    h.eqs("extended_to_coeff", &d.extended_to_coeff(ext), &b);
    // vanishing division
    let mut x = d.empty_extended();
    let xs = h.fps("x", en);
    for i in 0..en {
        x[i] = xs[i];
    }
    let y = d.divide_by_vanishing_poly(x.clone());
    for i in 0..en {
        h.eq(&format!("vanishing division {}", i), y[i] * (pts[i].pow_vartime([n as u64]) - Fp::one()), xs[i]);
    }
    // rotations
    let ni = n as i32;
    for r in -ni..=ni {
        let y = d.rotate_extended(&x, rot(r));
        let sh = (en / n) as i64 * r as i64;
        for i in 0..en {
            h.eq(&format!("rotate_extended({})[{}]", r, i), y[i], xs[(i as i64 + sh).rem_euclid(en as i64) as usize]);
        }
        let y = p.rotate(rot(r));
        for i in 0..n {
            h.eq(&format!("rotate({})[{}]", r, i), y[i], v[(i as i64 + r as i64).rem_euclid(n as i64) as usize]);
        }
    }
    // Lagrange basis evaluations
    let z = h.fp("z");
    let zn = h.fp("zn");
    for (lo, hi) in [(-ni, ni), (0, ni), (-(ni / 2), 1), (0, 1), (1, 1)] {
        let l = d.l_i_range(z, zn, lo..hi);
        h.ok("l_i_range length", l.len() == (hi - lo) as usize);
        for (i, r) in (lo..hi).enumerate() {
            let w = wpow(k, r as i64);
            h.eq(&format!("l_{}", r), l[i] * (z - w) * Fp::from(n as u64), w * (zn - Fp::one()));
        }
    }
    let l = d.l_i_range(z, zn, (0..=ni).rev());
    for (i, r) in (0..=ni).rev().enumerate() {
        let w = wpow(k, r as i64);
        h.eq(&format!("rev l_{}", r), l[i] * (z - w) * Fp::from(n as u64), w * (zn - Fp::one()));
    }
    // constant polynomials
    let s = h.fp("s");
    h.ok("sizes", d.empty_coeff().len() == n && d.empty_lagrange().len() == n && d.empty_extended().len() == en);
    h.ok("sizes", d.constant_lagrange(s).len() == n && d.constant_extended(s).len() == en);
    for x in d.constant_lagrange(s).iter().chain(d.constant_extended(s).iter()) {
        h.eq("constant", *x, s);
    }
    for x in d.empty_coeff().iter().chain(d.empty_lagrange().iter()).chain(d.empty_extended().iter()) {
        h.eq("empty", *x, Fp::zero());
    }
}

pub fn p03(cx: &mut Cx) {
    cx.functions(&[
        "arithmetic::eval_polynomial",
        "arithmetic::compute_inner_product",
        "arithmetic::kate_division",
        "arithmetic::lagrange_interpolate",
        "Polynomial::{add,mul,rotate,index,iter,num_coeffs}",
        "arithmetic::parallelize",
    ]);
    let deep = tier_thorough();
    let nm = if deep { 33 } else { 17 };
    cx.bound(&format!("vectors of length 0..{} (evaluation, inner product, division), interpolation through 1..{} points, pools of 1..8 threads", nm, if deep { 7 } else { 6 }));
    cx.assume("interpolation points are pairwise distinct, as documented");
    for n in 0..=nm {
        cx.run(&format!("eval/{}", n), |h| {
            let a = h.fps("a", n);
            let x = h.fp("x");
            h.eq("eval", eval_polynomial(&a, x), ev(&a, x));
            h.eq("eval at 0", eval_polynomial(&a, Fp::zero()), a.first().copied().unwrap_or(Fp::zero()));
            let b = h.fps("b", n);
            h.eq("inner", compute_inner_product(&a, &b), sum((0..n).map(|i| a[i] * b[i])));
        });
    }
    for n in 1..=nm {
        cx.run(&format!("kate/{}", n), |h| {
            let a = h.fps("a", n);
            let b = h.fp("b");
            let q = kate_division(&a, b);
            h.ok("length", q.len() == n - 1);
            // q (X - b) + a(b) == a
            let mut r = if n > 1 { pmul(&q, &[-b, Fp::one()]) } else { vec![Fp::zero()] };
            r[0] = r[0] + ev(&a, b);
            h.eqs("quotient", &r, &a);
        });
    }
    for n in 1..=(if deep { 7 } else { 6 }) {
        cx.run(&format!("interpolate/{}", n), |h| {
            // symbolic points and evaluations
            let (p, e) = if n <= 3 || deep && n <= 4 {
                (h.fps("p", n), h.fps("e", n))
            } else {
                let mut p: Vec<Fp> = (0..n).map(|i| h.konst(&format!("p{}", i))).collect();
                p[0] = Fp::zero();
                p[1] = h.fp("p1");
                if n == 4 {
                    p[3] = h.fp("p3");
                }
                (p, h.fps("e", n))
            };
            let c = lagrange_interpolate(&p, &e);
            h.ok("length", c.len() == n);
            for i in 0..n {
                h.eq(&format!("value at point {}", i), ev(&c, p[i]), e[i]);
            }
        });
    }
    for n in 1..=8 {
        cx.run(&format!("interpolate/const-points/{}", n), |h| {
            let p: Vec<Fp> = (0..n).map(|i| if i == n / 2 { Fp::zero() } else { h.konst(&format!("p{}", i)) }).collect();
            let e = h.fps("e", n);
            let c = lagrange_interpolate(&p, &e);
            h.ok("length", c.len() == n);
            for i in 0..n {
                h.eq(&format!("value at point {}", i), ev(&c, p[i]), e[i]);
            }
        });
    }
    for t in [1usize, 2, 3, 4, 5, 8] {
        for k in [0u32, 1, 2, 3, 4, 5, 6] {
            cx.run(&format!("ops/threads{}/k{}", t, k), |h| {
                let n = 1usize << k;
                let d = EvaluationDomain::<Fp>::new(2, k);
                let a = h.fps("a", n);
                let b = h.fps("b", n);
                let s = h.fp("s");
                let pa = d.coeff_from_vec(a.clone());
                let pb = d.coeff_from_vec(b.clone());
                let (r, m, par) = pool(t, || {
                    let r = pa.clone() + &pb;
                    let m = pa.clone() * s;
                    let mut par = a.clone();
                    parallelize(&mut par, |c, start| {
                        for (i, c) in c.iter_mut().enumerate() {
                            *c = *c + b[start + i] * Fp::from((start + i) as u64 + 3);
                        }
                    });
                    (r, m, par)
                });
                h.ok("num_coeffs", r.num_coeffs() == n && m.num_coeffs() == n);
                for i in 0..n {
                    h.eq("add", r[i], a[i] + b[i]);
                    h.eq("scale", m[i], a[i] * s);
                    h.eq("parallelize", par[i], a[i] + b[i] * Fp::from(i as u64 + 3));
                }
                for (x, y) in r.iter().zip(r[..].iter()) {
                    h.eq("iter", *x, *y);
                }
                let mut it = pa.clone();
                for x in it.iter_mut() {
                    *x = *x * s;
                }
                it[n - 1] = s;
                it[(n / 2)..].iter().enumerate().for_each(|(i, x)| {
                    let i = i + n / 2;
                    h.eq("indexed", *x, if i == n - 1 { s } else { a[i] * s });
                });
            });
        }
    }
    cx.witness("eval/false", |h| {
        let a = h.fps("a", 3);
        let x = h.fp("x");
        h.eq("eval", eval_polynomial(&a, x), a[0] + a[1] * x);
    });
}
