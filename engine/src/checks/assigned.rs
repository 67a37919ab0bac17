//! P04 deferred-inversion arithmetic, P05 evaluator, P24 witness values.
use super::util::*;
use crate::core::*;
use ff::{Field, WithSmallOrderMulGroup};
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::{Assigned, Error};
use halo2_proofs::poly::{EvaluationDomain, Polynomial};
use halo2_proofs::verif::{self, VAst};
use pasta_curves::Fp;

/// meaning of a deferred value, per its documentation: n/d, or zero when d = 0
fn mean(a: Assigned<Fp>) -> Fp {

    match a {
        Assigned::Zero => Fp::zero(),
        Assigned::Trivial(x) => x,
        Assigned::Rational(n, d) => {
            if d == Fp::zero() {
                Fp::zero()
            } else {
                n * d.invert().unwrap()
            }
        }
    }
}
const KINDS: usize = 9;
fn make(h: &mut H, p: &str, kind: usize) -> Assigned<Fp> {
    let z = Fp::zero();
    match kind {
        0 => Assigned::Zero,
        1 => Assigned::Trivial(z),
        2 => Assigned::Trivial(h.fp(&format!("{}x", p))),
        3 => Assigned::Rational(h.fp(&format!("{}n", p)), h.fp(&format!("{}d", p))),
        4 => Assigned::Rational(h.fp(&format!("{}n", p)), z),
        5 => Assigned::Rational(z, h.fp(&format!("{}d", p))),
        6 => Assigned::Rational(z, z),
        7 => Assigned::Rational(h.fp(&format!("{}n", p)), Fp::one()),
        _ => Assigned::Rational(Fp::one(), h.fp(&format!("{}d", p))),
    }
}
fn minv(x: Fp) -> Fp {
    if x == Fp::zero() {
        Fp::zero()
    } else {
        x.invert().unwrap()
    }
}

pub fn p04(cx: &mut Cx) {
    cx.functions(&[
        "plonk::Assigned::{add,sub,neg,mul,double,square,cube,invert,evaluate,is_zero_vartime,eq,numerator,denominator,from}",
        "poly::batch_invert_assigned",
        "Polynomial<Assigned>::invert",
        "circuit::Value<Assigned>::{add,sub,mul,double,square,cube,invert,evaluate}",
    ]);
    cx.bound("all operand representations (zero, trivial, fraction; numerator/denominator generic, 0 or 1) with symbolic field components; every equality branch reachable by fixing up to 2 components; batches of up to 3 columns x 8 rows");
    for a in 0..KINDS {
        cx.run_split(&format!("unary/{}", a), 2, 60, |h| {
            let x = make(h, "a", a);
            let m = mean(x);
            h.eq("evaluate", x.evaluate(), m);
            h.eq("neg", (-x).evaluate(), -m);
            h.eq("neg ref", (-&x).evaluate(), -m);
            h.eq("double", x.double().evaluate(), m + m);
            h.eq("square", x.square().evaluate(), m * m);
            h.eq("cube", x.cube().evaluate(), m * m * m);
            let i = x.invert();
            let mi = minv(m);
            h.eq("invert", mean(i), mi);
            h.eq("invert evaluated", i.evaluate(), mi);
            h.ok("is_zero", x.is_zero_vartime() == (m == Fp::zero()));
            h.ok("reflexive equality", x == x);
            let n = x.numerator();
            let d = x.denominator();
            let back = match d {
                None => n,
                Some(d) => n * minv(d),
            };
            h.eq("numerator/denominator", back, m);
            h.eq("from ref", Assigned::from(&x).evaluate(), m);
            h.eq("from field", Assigned::from(m).evaluate(), m);
            h.eq("from pair", Assigned::from((n, Fp::from(2))).evaluate(), n * inv(Fp::from(2)));
            // value wrappers
            let v = Value::known(x);
            let got = get(v.double().evaluate());
            h.eq("Value double", got, m + m);
            let got = get(v.square().evaluate());
            h.eq("Value square", got, m * m);
            let got = get(v.cube().evaluate());
            h.eq("Value cube", got, m * m * m);
            let got = get(v.invert().evaluate());
            h.eq("Value invert", got, mi);
        });
        for b in 0..KINDS {
            cx.run_split(&format!("binary/{}-{}", a, b), 2, 60, |h| {
                let x = make(h, "a", a);
                let y = make(h, "b", b);
                let (mx, my) = (mean(x), mean(y));
                let r = x + y;
                h.eq("add", mean(r), mx + my);
                h.eq("add evaluated", (x + y).evaluate(), mx + my);
                let r = x - y;
                h.eq("sub", mean(r), mx - my);
                h.eq("sub evaluated", (x - y).evaluate(), mx - my);
                let r = x * y;
                h.eq("mul", mean(r), mx * my);
                h.eq("mul evaluated", (x * y).evaluate(), mx * my);
                h.eq("add ref", (&x + &y).evaluate(), mx + my);
                h.eq("sub ref", (&x - &y).evaluate(), mx - my);
                h.eq("mul ref", (x * &y).evaluate(), mx * my);
                h.eq("add ref l", (&x + y).evaluate(), mx + my);
                h.eq("sub ref l", (&x - y).evaluate(), mx - my);
                h.eq("add ref r", (x + &y).evaluate(), mx + my);
                h.eq("sub ref r", (x - &y).evaluate(), mx - my);
                h.eq("add field", (x + my).evaluate(), mx + my);
                h.eq("sub field", (x - my).evaluate(), mx - my);
                h.eq("mul field", (x * my).evaluate(), mx * my);
                h.eq("add field ref", (&x + my).evaluate(), mx + my);
                h.eq("sub field ref", (&x - my).evaluate(), mx - my);
                h.eq("mul field ref", (&x * my).evaluate(), mx * my);
                let mut z = x;
                z += y;
                z -= &x;
                z *= y;
                z += &x;
                z -= y;
                z *= &y;
                h.eq("assign ops", z.evaluate(), ((mx + my - mx) * my + mx - my) * my);
                h.ok("equality agrees with the represented value", (x == y) == (mx == my));
                let v = get((Value::known(x) + Value::known(y)).evaluate());
                h.eq("Value add", v, mx + my);
                let v = get((Value::known(x) - Value::known(my)).evaluate());
                h.eq("Value sub field", v, mx - my);
                let v = get((Value::known(x) * Value::known(my)).evaluate());
                h.eq("Value mul field", v, mx * my);
            });
        }
    }
    // columns: mixed representations, zero denominators anywhere
    for k in 0..=3u32 {
        for pat in 0..6usize {
            cx.run_split(&format!("batch/k{}/pattern{}", k, pat), 1, 40, |h| {
                let d = EvaluationDomain::<Fp>::new(2, k);
                let n = 1usize << k;
                let cols: Vec<Vec<Assigned<Fp>>> = (0..3)
                    .map(|c| {
                        (0..n)
                            .map(|r| {
                                let kind = (c * 5 + r * (pat + 1) + pat * 3 + r * r) % KINDS;
                                make(h, &format!("c{}r{}", c, r), kind)
                            })
                            .collect()
                    })
                    .collect();
                let out = verif::batch_invert_assigned(&d, cols.clone());
                h.ok("columns", out.len() == 3);
                for c in 0..3 {
                    h.ok("rows", out[c].len() == n);
                    for r in 0..n {
                        let m = mean(cols[c][r]);
                        h.eq(&format!("cell {} {}", c, r), out[c][r], m);
                    }
                }
            });
        }
    }
    cx.run("batch/empty", |h| {
        let d = EvaluationDomain::<Fp>::new(2, 1);
        h.ok("no columns", verif::batch_invert_assigned(&d, vec![]).is_empty());
    });
    cx.witness("false/sub-commutes", |h| {
        let x = make(h, "a", 3);
        let y = make(h, "b", 3);
        h.eq("sub", (x - y).evaluate(), (y - x).evaluate());
    });
}

pub fn get(v: Value<Fp>) -> Fp {
    let mut out = None;
    v.map(|x| out = Some(x));
    out.expect("known value became unknown")
}
fn known<V>(v: Value<V>) -> bool {
    let mut k = false;
    v.map(|_| k = true);
    k
}

pub fn p05(cx: &mut Cx) {
    cx.functions(&[
        "poly::evaluator::{Evaluator::evaluate,register_poly,AstLeaf::with_rotation,Ast::*,get_chunk_params}",
        "BasisOps for Coeff, LagrangeCoeff, ExtendedLagrangeCoeff",
        "Polynomial::get_chunk_of_rotated*",
        "EvaluationDomain::get_chunk_of_rotated_extended",
    ]);
    let deep = tier_thorough();
    cx.bound("domains k=1..4 with j=2..5, pools of 1,2,3,5,8 threads, rotations -n..n, every node kind in each basis plus composed expressions of depth up to 5; symbolic polynomial values, scalars and bases");
    let kmax = if deep { 5 } else { 4 };
    for t in [1usize, 2, 3, 5, 8] {
        for k in 1..=kmax {
            for j in [2u32, 3, 5] {
                if j == 5 && k == 4 && t != 3 && !deep {
                    continue;
                }
                cx.run(&format!("eval/threads{}/k{}/j{}", t, k, j), |h| pool_eval(t, h, k, j));
            }
        }
    }
    cx.witness("false/rotation-ignored", |h| {
        let d = EvaluationDomain::<Fp>::new(3, 2);
        let v = h.fps("v", 4);
        let r = verif::evaluate_lagrange(vec![d.lagrange_from_vec(v.clone())], &VAst::Poly(0, 1), &d);
        h.eqs("rot", &r[..], &v);
    });
}

fn pool_eval(t: usize, h: &mut H, k: u32, j: u32) {
    super::arith::pool_h(t, h, |h| {
        let d = EvaluationDomain::<Fp>::new(j, k);
        let n = 1usize << k;
        let en = d.extended_len();
        let s = h.fp("s");
        let b = h.fp("b");
        use VAst::*;
        let bx = Box::new;
        // Lagrange and extended bases: pointwise semantics
        for ext in [false, true] {
            let len = if ext { en } else { n };
            let pre = if ext { "e" } else { "l" };
            let polys: Vec<Vec<Fp>> = (0..3).map(|i| h.fps(&format!("{}{}_", pre, i), len)).collect();
            let ni = n as i32;
            let mut asts: Vec<VAst<Fp>> = vec![
                Add(bx(Poly(0, 0)), bx(Poly(1, 0))),
                Sub(bx(Poly(0, 1)), bx(Poly(1, 0))),
                Mul(bx(Poly(0, 0)), bx(Poly(1, -1))),
                Neg(bx(Poly(2, 0))),
                Scale(bx(Poly(2, 0)), s),
                Linear(s),
                Constant(s),
                One,
                Distribute(vec![], b),
                Distribute(vec![Poly(0, 0)], b),
                Distribute(vec![Poly(0, 0), Poly(1, 1), Constant(s), Linear(b), Poly(2, -1)], b),
                Add(
                    bx(Mul(bx(Sub(bx(Poly(0, 0)), bx(Constant(s)))), bx(Add(bx(Poly(1, ni)), bx(Linear(s)))))),
                    bx(Distribute(
                        vec![Mul(bx(Poly(2, -ni)), bx(Poly(2, 0))), Neg(bx(Scale(bx(Poly(0, 0)), b))), One],
                        s,
                    )),
                ),
            ];
            let rs: Vec<i32> = if len > 64 { vec![-ni, -1, 0, 1, ni] } else { (-ni..=ni).collect() };
            for r in rs {
                asts.push(Poly(1, r));
            }
            for (ai, a) in asts.iter().enumerate() {
                let out: Vec<Fp> = if ext {
                    let ps: Vec<Polynomial<Fp, _>> = polys
                        .iter()
                        .map(|v| {
                            let mut p = d.empty_extended();
                            p.copy_from_slice(v);
                            p
                        })
                        .collect();
                    verif::evaluate_extended(ps, a, &d).to_vec()
                } else {
                    let ps: Vec<Polynomial<Fp, _>> = polys.iter().map(|v| d.lagrange_from_vec(v.clone())).collect();
                    verif::evaluate_lagrange(ps, a, &d).to_vec()
                };
                h.ok("length", out.len() == len);
                for i in 0..len {
                    let x = if ext {
                        Fp::ZETA * wpow(len.trailing_zeros(), i as i64)
                    } else {
                        wpow(k, i as i64)
                    };
                    let want = pointwise(a, &polys, i, x, (len / n) as i64);
                    h.eq(&format!("{}{}[{}]", pre, ai, i), out[i], want);
                }
            }
        }
        // coefficient basis: linear operations on coefficient vectors
        let polys: Vec<Vec<Fp>> = (0..2).map(|i| h.fps(&format!("c{}_", i), n)).collect();
        let asts: Vec<VAst<Fp>> = vec![
            Add(bx(Constant(s)), bx(Linear(b))),
            Sub(bx(Linear(s)), bx(Constant(b))),
            Neg(bx(Constant(s))),
            Scale(bx(Linear(b)), s),
            Constant(s),
            One,
            Linear(s),
            Distribute(vec![], b),
            Distribute(vec![One, Constant(s), Linear(b), Neg(bx(Linear(s)))], b),
        ];
        for (ai, a) in asts.iter().enumerate() {
            let ps: Vec<Polynomial<Fp, _>> = polys.iter().map(|v| d.coeff_from_vec(v.clone())).collect();
            let out = verif::evaluate_coeff(ps, a, &d);
            for i in 0..n {
                h.eq(&format!("c{}[{}]", ai, i), out[i], coeffwise(a, &polys, i));
            }
        }
    })
}
fn pointwise(a: &VAst<Fp>, p: &[Vec<Fp>], i: usize, x: Fp, step: i64) -> Fp {
    let r = |a: &VAst<Fp>| pointwise(a, p, i, x, step);
    match a {
        VAst::Poly(q, rot) => p[*q][(i as i64 + *rot as i64 * step).rem_euclid(p[*q].len() as i64) as usize],
        VAst::Add(a, b) => r(a) + r(b),
        VAst::Sub(a, b) => r(a) - r(b),
        VAst::Neg(a) => -r(a),
        VAst::Mul(a, b) => r(a) * r(b),
        VAst::Scale(a, s) => r(a) * s,
        VAst::Distribute(v, b) => {
            let m = v.len();
            sum(v.iter().enumerate().map(|(t, a)| r(a) * pw(*b, (m - 1 - t) as u64)))
        }
        VAst::Linear(s) => *s * x,
        VAst::Constant(s) => *s,
        VAst::One => Fp::one(),
    }
}
fn coeffwise(a: &VAst<Fp>, p: &[Vec<Fp>], i: usize) -> Fp {
    let r = |a: &VAst<Fp>| coeffwise(a, p, i);
    match a {
        VAst::Poly(q, _) => p[*q][i],
        VAst::Add(a, b) => r(a) + r(b),
        VAst::Sub(a, b) => r(a) - r(b),
        VAst::Neg(a) => -r(a),
        VAst::Scale(a, s) => r(a) * s,
        VAst::Distribute(v, b) => {
            let m = v.len();
            sum(v.iter().enumerate().map(|(t, a)| r(a) * pw(*b, (m - 1 - t) as u64)))
        }
        VAst::Linear(s) => {
            if i == 1 {
                *s
            } else {
                Fp::zero()
            }
        }
        VAst::Constant(s) => {
            if i == 0 {
                *s
            } else {
                Fp::zero()
            }
        }
        VAst::One => {
            if i == 0 {
                Fp::one()
            } else {
                Fp::zero()
            }
        }
        VAst::Mul(..) => unreachable!(),
    }
}

pub fn p24(cx: &mut Cx) {
    cx.functions(&["circuit::Value::{known,unknown,map,and_then,zip,unzip,as_ref,as_mut,copied,cloned,assert_if_known,error_if_known_and,transpose_array,transpose_vec,from_iter,neg,add,sub,mul,to_field,into_field,double,square,cube,invert,evaluate}"]);
    cx.bound("all known/unknown combinations of up to 3 operands; symbolic field contents");
    for m in 0..8u32 {
        cx.run(&format!("ops/{}", m), |h| {
            let (a, b, c) = (h.fp("a"), h.fp("b"), h.fp("c"));
            let mk = |i: u32, x: Fp| if m >> i & 1 == 1 { Value::known(x) } else { Value::unknown() };
            let (va, vb, vc) = (mk(0, a), mk(1, b), mk(2, c));
            let k = |i: u32| m >> i & 1 == 1;
            let ab = k(0) && k(1);
            macro_rules! chk {
                ($l:expr, $v:expr, $k:expr, $w:expr) => {{
                    let v: Value<Fp> = $v;
                    h.ok(&format!("{}: known-ness", $l), known(v) == $k);
                    if $k {
                        h.eq($l, get(v), $w);
                    }
                }};
            }
            chk!("add", va + vb, ab, a + b);
            chk!("sub", va - vb, ab, a - b);
            chk!("mul", va * vb, ab, a * b);
            chk!("neg", -va, k(0), -a);
            chk!("add ref", &va + &vb, ab, a + b);
            chk!("sub ref", &va - &vb, ab, a - b);
            chk!("mul ref", &va * &vb, ab, a * b);
            chk!("add vr", va + vb.as_ref(), ab, a + b);
            chk!("sub vr", va - vb.as_ref(), ab, a - b);
            chk!("mul vr", va * vb.as_ref(), ab, a * b);
            chk!("add rv", va.as_ref() + vb, ab, a + b);
            chk!("sub rv", va.as_ref() - vb, ab, a - b);
            chk!("mul rv", va.as_ref() * vb, ab, a * b);
            chk!("add &r", va + &vb, ab, a + b);
            chk!("sub &r", va - &vb, ab, a - b);
            chk!("mul &r", va * &vb, ab, a * b);
            chk!("add &l", &va + vb, ab, a + b);
            chk!("sub &l", &va - vb, ab, a - b);
            chk!("mul &l", &va * vb, ab, a * b);
            chk!("map", va.map(|x| x * c), k(0), a * c);
            chk!("and_then", va.and_then(|x| vb.map(|y| x - y)), ab, a - b);
            chk!("zip", va.zip(vb).map(|(x, y)| x - y), ab, a - b);
            let (u, w) = va.zip(vb).unzip();
            chk!("unzip l", u, ab, a);
            chk!("unzip r", w, ab, b);
            chk!("copied", va.as_ref().copied(), k(0), a);
            chk!("cloned", va.as_ref().cloned(), k(0), a);
            let mut t = va;
            t.as_mut().map(|x| *x = *x + c);
            chk!("as_mut", t, k(0), a + c);
            chk!("default", Value::default(), false, a);
            let arr: Value<Vec<Fp>> = vec![va, vb, vc].into_iter().collect();
            h.ok("collect known iff all known", known(arr.clone()) == (m == 7));
            arr.map(|v| h.eqs("collected in order", &v, &[a, b, c]));
            let tr = va.zip(vb).map(|(x, y)| [x, y]).transpose_array();
            chk!("transpose_array 0", tr[0], ab, a);
            chk!("transpose_array 1", tr[1], ab, b);
            let tr = va.zip(vb).map(|(x, y)| vec![x, y]).transpose_vec(2);
            h.ok("transpose_vec length", tr.len() == 2);
            chk!("transpose_vec 0", tr[0], ab, a);
            chk!("transpose_vec 1", tr[1], ab, b);
            for t in [true, false] {
                let e = va.error_if_known_and(|_| t);
                h.ok("error_if_known_and", matches!(e, Err(Error::Synthesis)) == (k(0) && t));
            }
            va.assert_if_known(|x| x.t == a.t);
            let p = std::panic::catch_unwind(|| va.assert_if_known(|_| false)).is_err();
            h.ok("assert_if_known panics exactly when known and false", p == k(0));
            let fa: Value<Assigned<Fp>> = va.into();
            let fb: Value<Assigned<Fp>> = vb.to_field();
            let fc: Value<Assigned<Fp>> = vc.into_field();
            chk!("assigned add", (fa + fb).evaluate(), ab, a + b);
            chk!("assigned sub", (fa - fb).evaluate(), ab, a - b);
            chk!("assigned mul", (fa * fb).evaluate(), ab, a * b);
            chk!("assigned add value", (fa + vb).evaluate(), ab, a + b);
            chk!("assigned sub value", (fa - vb).evaluate(), ab, a - b);
            chk!("assigned mul value", (fa * vb).evaluate(), ab, a * b);
            chk!("assigned add field", (fa + b).evaluate(), k(0), a + b);
            chk!("assigned sub field", (fa - b).evaluate(), k(0), a - b);
            chk!("assigned mul field", (fa * b).evaluate(), k(0), a * b);
            chk!("assigned ref add value", (fa.as_ref() + vb).evaluate(), ab, a + b);
            chk!("assigned ref sub value", (fa.as_ref() - vb).evaluate(), ab, a - b);
            chk!("assigned ref mul value", (fa.as_ref() * vb).evaluate(), ab, a * b);
            chk!("assigned ref add field", (fa.as_ref() + b).evaluate(), k(0), a + b);
            chk!("assigned ref sub field", (fa.as_ref() - b).evaluate(), k(0), a - b);
            chk!("assigned ref mul field", (fa.as_ref() * b).evaluate(), k(0), a * b);
            chk!("double", fa.double().evaluate(), k(0), a + a);
            chk!("square", fa.square().evaluate(), k(0), a * a);
            chk!("cube", fa.cube().evaluate(), k(0), a * a * a);
            chk!("into_field", fc.evaluate(), k(2), c);
            let iv = fa.invert().evaluate();
            h.ok("invert known-ness", known(iv) == k(0));
            if k(0) {
                h.eq("invert", get(iv) * a, Fp::one());
            }
        });
    }
    cx.witness("false/add", |h| {
        let a = h.fp("a");
        let b = h.fp("b");
        h.eq("add", get(Value::known(a) + Value::known(b)), a - b);
    });
}
