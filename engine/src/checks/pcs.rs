//! P06 parameters and commitments, P07 opening argument, P08 multi-scalar bookkeeping, P09 multi-point openings.
use super::arith::pool_h;
use super::symt::*;
use super::util::*;
use crate::core::*;
use crate::symgroup::{take_last, G, GA};
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Group, GroupEncoding};
use halo2_proofs::poly::commitment::{self, Blind, Guard, Params, MSM};
use halo2_proofs::poly::multiopen::{self, ProverQuery, VerifierQuery};
use halo2_proofs::poly::{Coeff, EvaluationDomain, Polynomial};
use pasta_curves::sym;
use pasta_curves::Fp;

/// the linear combination an MSM stands for, as the library evaluates it
pub fn msm_point(m: MSM<GA>) -> G {
    take_last();
    let r = m.eval();
    let g = take_last().expect("eval tests one point");
    assert_eq!(r, bool::from(g.p.is_identity()));
    g
}
pub fn gen_g(h: &mut H, i: u32) -> G {
    let mut s = String::from("Halo2-Parameters:00");
    for b in i.to_le_bytes() {
        s += &format!("{:02x}", b);
    }
    h.gen_hash(&s, "Halo2-Parameters", &[&[0u8][..], &i.to_le_bytes()[..]].concat())
}
pub fn gen_w(h: &mut H) -> G {
    h.gen_hash("Halo2-Parameters:01", "Halo2-Parameters", &[1])
}
pub fn gen_u(h: &mut H) -> G {
    h.gen_hash("Halo2-Parameters:02", "Halo2-Parameters", &[2])
}
/// Σ a_i G_i + r W, straight from the definition
pub fn com(h: &mut H, a: &[Fp], r: Fp) -> G {
    let mut g = gen_w(h) * r;
    for (i, a) in a.iter().enumerate() {
        g = g + gen_g(h, i as u32) * *a;
    }
    g
}

pub fn p06(cx: &mut Cx) {
    cx.functions(&["Params::{new,commit,commit_lagrange,get_g,k,read,write,empty_msm}", "helpers::CurveRead::read", "Blind ops", "best_fft (group)"]);
    let deep = tier_thorough();
    let kmax = if deep { 6 } else { 4 };
    cx.bound(&format!("k = 0..{}, pools of 1,2,3,5,8 threads, every truncation and every invalid element of an encoding for k <= 2", kmax));
    cx.assume("hash-to-curve outputs are independent generators (their discrete-log relations are unknown)");
    for k in 0..=kmax {
        for t in if k < 3 { vec![1usize, 3] } else { vec![1, 2, 3, 5, 8] } {
            cx.run(&format!("commit/k{}/threads{}", k, t), |h| {
                pool_h(t, h, |h| {
                    let n = 1usize << k;
                    let params = Params::<GA>::new(k);
                    h.ok("k", params.k() == k);
                    let g = params.get_g();
                    h.ok("generator count", g.len() == n);
                    for i in 0..n {
                        let want = gen_g(h, i as u32);
                        h.geq(&format!("generator {}", i), g[i].into(), want);
                    }
                    let d = EvaluationDomain::<Fp>::new(2, k);
                    check_commit(h, "fresh", &params, &d, k);
                    let mut bytes = vec![];
                    params.write(&mut bytes).unwrap();
                    h.ok("encoded length", bytes.len() == 4 + 32 * (2 * n + 2));
                    h.ok("encoded k", bytes[..4] == k.to_le_bytes());
                    for i in 0..n {
                        let want: GA = gen_g(h, i as u32).into();
                        h.ok("encoded generator", bytes[4 + 32 * i..36 + 32 * i] == want.to_bytes());
                    }
                    let (w, u): (GA, GA) = (gen_w(h).into(), gen_u(h).into());
                    let tail = bytes.len() - 64;
                    h.ok("encoded w", bytes[tail..tail + 32] == w.to_bytes());
                    h.ok("encoded u", bytes[tail + 32..] == u.to_bytes());
                    let back = Params::<GA>::read(&mut &bytes[..]).unwrap();
                    let mut again = vec![];
                    back.write(&mut again).unwrap();
                    h.ok("write(read(bytes)) == bytes", again == bytes);
                    h.ok("k after reading", back.k() == k);
                    check_commit(h, "re-read", &back, &d, k);
                    let mut m = back.empty_msm();
                    let su = h.fp("su");
                    m.add_to_u_scalar(su);
                    let want = gen_u(h) * su;
                    h.geq("u after reading", msm_point(m), want);
                });
            });
        }
    }
    for k in 0..=2u32 {
        cx.run(&format!("encoding/k{}", k), |h| {
            let params = Params::<GA>::new(k);
            let mut bytes = vec![];
            params.write(&mut bytes).unwrap();
            for l in 0..bytes.len() {
                h.ok(&format!("truncated to {} bytes is rejected", l), Params::<GA>::read(&mut &bytes[..l]).is_err());
            }
            let n = (bytes.len() - 4) / 32;
            for e in 0..n {
                for bad in [[0xffu8; 32], { let mut b = [0u8; 32]; b[31] = 0x40; b[0] = 1; b }, off_curve()] {
                    let mut b = bytes.clone();
                    b[4 + 32 * e..36 + 32 * e].copy_from_slice(&bad);
                    let exp = GA::from_bytes(&bad);
                    if bool::from(exp.is_none()) {
                        h.ok(&format!("invalid element {} is rejected", e), Params::<GA>::read(&mut &b[..]).is_err());
                    }
                }
            }
            let mut long = bytes.clone();
            long.push(7);
            let mut r = &long[..];
            h.ok("reads exactly its own bytes", Params::<GA>::read(&mut r).is_ok() && r == [7]);
        });
    }
    cx.run("blind", |h| {
        let (a, b) = (h.fp("a"), h.fp("b"));
        h.eq("add", (Blind(a) + Blind(b)).0, a + b);
        h.eq("mul", (Blind(a) * Blind(b)).0, a * b);
        let mut x = Blind(a);
        x += Blind(b);
        h.eq("add_assign", x.0, a + b);
        let mut x = Blind(a);
        x *= Blind(b);
        h.eq("mul_assign", x.0, a * b);
        let mut x = Blind(a);
        x += b;
        h.eq("add scalar", x.0, a + b);
        let mut x = Blind(a);
        x *= b;
        h.eq("mul scalar", x.0, a * b);
        h.eq("default", Blind::<Fp>::default().0, Fp::one());
    });
    cx.witness("unblinded", |h| {
        let p = Params::<GA>::new(1);
        let d = EvaluationDomain::<Fp>::new(2, 1);
        let a = h.fps("a", 2);
        let r = h.fp("r");
        let want = com(h, &a, Fp::zero());
        h.geq("c", p.commit(&d.coeff_from_vec(a), Blind(r)), want);
    });
}
fn off_curve() -> [u8; 32] {
    for i in 0u8..=255 {
        let mut b = [0u8; 32];
        b[0] = i;
        b[1] = 9;
        if bool::from(pasta_curves::EqAffine::from_bytes(&b).is_none()) {
            return b;
        }
    }
    unreachable!()
}
fn check_commit(h: &mut H, l: &str, params: &Params<GA>, d: &EvaluationDomain<Fp>, k: u32) {
    let n = 1usize << k;
    let a = h.fps(&format!("{} a", l), n);
    let v = h.fps(&format!("{} v", l), n);
    let (r, s) = (h.fp(&format!("{} r", l)), h.fp(&format!("{} s", l)));
    let want = com(h, &a, r);
    h.geq(&format!("{} commit", l), params.commit(&d.coeff_from_vec(a), Blind(r)), want);
    let c = idft(&v, k);
    let want = com(h, &c, s);
    h.geq(&format!("{} commit_lagrange", l), params.commit_lagrange(&d.lagrange_from_vec(v), Blind(s)), want);
}

/// P + [...]: everything the opening verifier's final equation contains, from the protocol definition
pub fn ipa_spec(h: &mut H, p: G, x: Fp, v: Fp, proof: &[Item], ch: &[Fp], k: usize) -> G {
    let pt = |i: usize| match proof[i] {
        Item::P(p) => G::from(p),
        _ => panic!("point expected"),
    };
    let sc = |i: usize| match proof[i] {
        Item::S(s) => s,
        _ => panic!("scalar expected"),
    };
    let (xi, z) = (ch[0], ch[1]);
    let u = &ch[2..2 + k];
    let mut acc = p - gen_g(h, 0) * v + pt(0) * xi;
    for j in 0..k {
        acc = acc + pt(1 + 2 * j) * inv(u[j]) + pt(2 + 2 * j) * u[j];
    }
    let (c, f) = (sc(1 + 2 * k), sc(2 + 2 * k));
    // G'_0 = <s, G> where s_i = prod of u_j over the bits of i (most significant bit first round)
    let n = 1usize << k;
    let mut b = Fp::zero();
    for i in 0..n {
        let mut s = Fp::one();
        for j in 0..k {
            if i >> (k - 1 - j) & 1 == 1 {
                s = s * u[j];
            }
        }
        acc = acc - gen_g(h, i as u32) * (c * s);
        b = b + s * pw(x, i as u64);
    }
    acc - gen_u(h) * (c * b * z) - gen_w(h) * f
}
pub fn sym_ipa_proof(h: &mut H, pre: &str, k: usize) -> Vec<Item> {
    let mut v = vec![Item::P(ga(h.gen(&format!("{}S", pre))))];
    for j in 0..k {
        v.push(Item::P(ga(h.gen(&format!("{}L{}", pre, j)))));
        v.push(Item::P(ga(h.gen(&format!("{}R{}", pre, j)))));
    }
    v.push(Item::S(h.fp(&format!("{}c", pre))));
    v.push(Item::S(h.fp(&format!("{}f", pre))));
    v
}

pub fn p07(cx: &mut Cx) {
    cx.functions(&["poly::commitment::create_proof", "poly::commitment::verify_proof", "Guard::use_challenges", "compute_b", "compute_s", "parallel_generator_collapse"]);
    let deep = tier_thorough();
    let kmax = if deep { 4 } else { 3 };
    cx.bound(&format!("k = 1..{} (polynomials of up to {} symbolic coefficients; verifier k = 1..{}), pools of 1..8 threads", kmax, 1 << kmax, kmax + 2));
    cx.assume("challenges u_j are nonzero (the code panics or inverts to zero with probability 2^-254)");
    for k in 1..=kmax {
        for t in if deep { vec![1usize, 2, 3, 4, 8] } else { vec![1, 3] } {
            cx.run(&format!("complete/k{}/threads{}", k, t), |h| {
                pool_h(t, h, |h| {
                    let params = Params::<GA>::new(k);
                    let d = EvaluationDomain::<Fp>::new(1, k);
                    let a = h.fps("a", 1 << k);
                    let (r, x) = (h.fp("r"), h.fp("x"));
                    let ch = h.fps("ch", k as usize + 2);
                    let mut tr = SymT::new(&ch);
                    let p = params.commit(&d.coeff_from_vec(a.clone()), Blind(r));
                    sym::set_random_symbolic(true);
                    commitment::create_proof(&params, Rng(seed()), &mut tr, &d.coeff_from_vec(a.clone()), Blind(r), x).unwrap();
                    sym::set_random_symbolic(false);
                    let v = ev(&a, x);
                    let proof = tr.proof();
                    h.ok("proof length", proof.len() == 3 + 2 * k as usize);
                    let mut rd = SymT::reader(&ch, &proof);
                    let mut msm = params.empty_msm();
                    msm.append_term(Fp::one(), p.into());
                    let g = commitment::verify_proof(&params, msm, &mut rd, x, v).unwrap();
                    h.geq("accepted", msm_point(g.use_challenges()), G::identity());
                    h.ok("same number of challenges", rd.nch == tr.nch && tr.nch == k as usize + 2);
                    h.ok("whole proof consumed", rd.pos == proof.len());
                    // the spec accepts it too
                    let s = ipa_spec(h, p, x, v, &proof, &ch, k as usize);
                    h.geq("satisfies the protocol equation", s, G::identity());
                    // any other claimed value leaves exactly (v - v') G_0
                    let dv = h.fp("dv");
                    let mut rd = SymT::reader(&ch, &proof);
                    let mut msm = params.empty_msm();
                    msm.append_term(Fp::one(), p.into());
                    let g = commitment::verify_proof(&params, msm, &mut rd, x, v + dv).unwrap();
                    let want = gen_g(h, 0) * (-dv);
                    h.geq("other value", msm_point(g.use_challenges()), want);
                });
            });
        }
    }
    for k in 1..=kmax + 2 {
        cx.run(&format!("verifier-equation/k{}", k), |h| {
            let params = Params::<GA>::new(k);
            let (x, v) = (h.fp("x"), h.fp("v"));
            let ch = h.fps("ch", k as usize + 2);
            let proof = sym_ipa_proof(h, "", k as usize);
            let p = h.gen("P");
            let s = h.fp("s");
            let mut msm = params.empty_msm();
            msm.append_term(s, p.into());
            let mut rd = SymT::reader(&ch, &proof);
            let g = commitment::verify_proof(&params, msm, &mut rd, x, v).unwrap();
            let want = ipa_spec(h, p * s, x, v, &proof, &ch, k as usize);
            h.geq("final equation", msm_point(g.use_challenges()), want);
            // order: S, xi, z, (L, R, u)*, c, f
            order(h, &rd.log, k as usize);
            for l in 0..proof.len() {
                let mut rd = SymT::reader(&ch, &proof[..l]);
                h.ok("truncated proof is an error", commitment::verify_proof(&params, params.empty_msm(), &mut rd, x, v).is_err());
            }
        });
    }
    cx.witness("wrong value accepted", |h| {
        let params = Params::<GA>::new(1);
        let ch = h.fps("ch", 3);
        let proof = sym_ipa_proof(h, "", 1);
        let mut rd = SymT::reader(&ch, &proof);
        let g = commitment::verify_proof(&params, params.empty_msm(), &mut rd, Fp::one(), Fp::one()).unwrap();
        h.geq("x", msm_point(g.use_challenges()), G::identity());
    });
}
fn order(h: &mut H, log: &[Ev], k: usize) {
    let pat: String = log
        .iter()
        .map(|e| match e {
            Ev::Proof(Item::P(_)) => 'P',
            Ev::Proof(Item::S(_)) => 'S',
            Ev::Common(Item::P(_)) => 'p',
            Ev::Common(Item::S(_)) => 's',
            Ev::Challenge(_) => 'c',
        })
        .collect();
    h.ok(&format!("transcript order {}", pat), pat == format!("Pcc{}SS", "PPc".repeat(k)));
}

pub fn p08(cx: &mut Cx) {
    cx.functions(&["MSM::{new,add_msm,append_term,add_constant_term,add_to_g_scalars,add_to_w_scalar,add_to_u_scalar,scale,eval}", "Guard::{use_challenges,use_g,compute_g}", "Accumulator"]);
    let deep = tier_thorough();
    cx.bound("every sequence of up to 3 (4 thorough) MSM operations, over points P, -P, Q, 2P, identity and a second MSM built by up to 2 operations; symbolic scalars; guards for k=1..4");
    // every operation sequence
    let nops = 12usize;
    let len = if deep { 4 } else { 3 };
    let total = nops.pow(len as u32);
    let chunk = 432;
    for c0 in (0..total).step_by(chunk) {
        cx.run(&format!("ops/{}", c0), |h| {
            let params = Params::<GA>::new(1);
            let s = h.fps("s", 8);
            for code in c0..(c0 + chunk).min(total) {
                let mut c = code;
                let mut msm = params.empty_msm();
                let mut want = G::identity();
                for i in 0..len {
                    op(h, &params, c % nops, &s[i * 2..], &mut msm, &mut want, true);
                    c /= nops;
                }
                h.geq(&format!("sequence {}", code), msm_point(msm), want);
            }
        });
    }
    for k in 1..=4u32 {
        cx.run(&format!("guard/k{}", k), |h| {
            let params = Params::<GA>::new(k);
            let (x, v) = (h.fp("x"), h.fp("v"));
            let ch = h.fps("ch", k as usize + 2);
            let proof = sym_ipa_proof(h, "", k as usize);
            let mk = || {
                let mut rd = SymT::reader(&ch, &proof);
                commitment::verify_proof(&params, params.empty_msm(), &mut rd, x, v).unwrap()
            };
            let full = msm_point(mk().use_challenges());
            let g = mk();
            let gg = g.compute_g();
            let mut want = G::identity();
            for i in 0..1usize << k {
                let s = (0..k as usize).filter(|j| i >> (k as usize - 1 - j) & 1 == 1).fold(Fp::one(), |a, j| a * ch[2 + j]);
                want = want + gen_g(h, i as u32) * s;
            }
            h.geq("compute_g", gg.into(), want);
            let (m, acc) = mk().use_g(gg);
            h.geq("use_g(compute_g()) equals use_challenges()", msm_point(m), full);
            h.geq("accumulator point", acc.g.into(), gg.into());
            h.eqs("accumulator challenges", &acc.u_packed.iter().map(|c| c.0).collect::<Vec<_>>(), &ch[2..]);
            // a purported other point changes the result by exactly -c (G' - G)
            let other = h.gen("Other");
            let (m, acc) = mk().use_g(other.into());
            let c = match proof[1 + 2 * k as usize] {
                Item::S(c) => c,
                _ => unreachable!(),
            };
            h.geq("use_g(other)", msm_point(m), full - (other - G::from(gg)) * c);
            h.geq("accumulator keeps it", acc.g.into(), other);
        });
    }
    cx.witness("sign lost", |h| {
        let params = Params::<GA>::new(1);
        let p = h.gen("P");
        let (a, b) = (h.fp("a"), h.fp("b"));
        let mut m = params.empty_msm();
        m.append_term(a, p.into());
        m.append_term(b, (-p).into());
        h.geq("x", msm_point(m), p * (a + b));
    });
}
fn op<'a>(h: &mut H, params: &'a Params<GA>, o: usize, s: &[Fp], msm: &mut MSM<'a, GA>, want: &mut G, nest: bool) {
    let p = h.gen("P");
    let q = h.gen("Q");
    match o {
        0 => {
            msm.append_term(s[0], p.into());
            *want = *want + p * s[0];
        }
        1 => {
            msm.append_term(s[0], (-p).into());
            *want = *want - p * s[0];
        }
        2 => {
            msm.append_term(s[0], q.into());
            *want = *want + q * s[0];
        }
        3 => {
            msm.append_term(s[0], GA::identity());
        }
        4 => {
            msm.append_term(s[0], (p + p).into());
            *want = *want + p * (s[0] + s[0]);
        }
        5 => {
            msm.add_constant_term(s[0]);
            *want = *want + gen_g(h, 0) * s[0];
        }
        6 => {
            let n = params.get_g().len();
            let v: Vec<Fp> = (0..n).map(|i| s[i % 2]).collect();
            msm.add_to_g_scalars(&v);
            for i in 0..n {
                *want = *want + gen_g(h, i as u32) * v[i];
            }
        }
        7 => {
            msm.add_to_w_scalar(s[0]);
            *want = *want + gen_w(h) * s[0];
        }
        8 => {
            msm.add_to_u_scalar(s[0]);
            *want = *want + gen_u(h) * s[0];
        }
        9 => {
            msm.scale(s[0]);
            *want = *want * s[0];
        }
        _ if nest => {
            let mut m = params.empty_msm();
            let mut w = G::identity();
            let seq: &[usize] = if o == 10 { &[0, 2, 5] } else { &[1, 6, 7, 8] };
            for i in seq {
                op(h, params, *i, s, &mut m, &mut w, false);
            }
            msm.add_msm(&m);
            *want = *want + w;
        }
        _ => unreachable!(),
    }
}

/// queries: (commitment index, point index); the same commitment/point pair never twice
type Qs = &'static [(usize, usize)];
const QSETS: &[(&str, usize, usize, Qs)] = &[
    ("one", 1, 1, &[(0, 0)]),
    ("two-same-point", 2, 1, &[(0, 0), (1, 0)]),
    ("one-two-points", 1, 2, &[(0, 0), (0, 1)]),
    ("two-sets", 2, 2, &[(0, 0), (1, 0), (1, 1)]),
    ("order-swapped", 2, 2, &[(0, 0), (0, 1), (1, 1), (1, 0)]),
    ("disjoint", 3, 2, &[(0, 0), (1, 1), (2, 0)]),
    ("interleaved", 3, 3, &[(0, 0), (1, 1), (0, 2), (2, 0), (1, 0), (2, 2)]),
    ("three-points", 3, 3, &[(0, 0), (0, 1), (0, 2), (1, 0), (2, 1), (2, 2)]),
    ("four", 4, 3, &[(3, 2), (2, 1), (1, 1), (0, 0), (3, 0), (1, 0), (2, 0)]),
];

pub struct Set {
    pub points: Vec<usize>,
    pub coms: Vec<usize>,
}
/// the protocol's grouping: point sets in order of first appearance of a commitment having that set;
/// inside a set, points in order of first appearance; commitments in order of first appearance
pub fn grouping(q: &[(usize, usize)]) -> Vec<Set> {
    let mut pts: Vec<usize> = vec![];
    let mut coms: Vec<usize> = vec![];
    for (c, p) in q {
        if !pts.contains(p) {
            pts.push(*p);
        }
        if !coms.contains(c) {
            coms.push(*c);
        }
    }
    let mut sets: Vec<Set> = vec![];
    for c in coms {
        let s: Vec<usize> = pts.iter().copied().filter(|p| q.contains(&(c, *p))).collect();
        match sets.iter_mut().find(|x| x.points == s) {
            Some(x) => x.coms.push(c),
            None => sets.push(Set { points: s, coms: vec![c] }),
        }
    }
    sets
}
/// value at x of the polynomial of degree < len through (p_i, e_i), by the Lagrange formula
pub fn interp_at(p: &[Fp], e: &[Fp], x: Fp) -> Fp {
    let mut acc = Fp::zero();
    for i in 0..p.len() {
        let mut n = e[i];
        let mut d = Fp::one();
        for j in 0..p.len() {
            if i != j {
                n = n * (x - p[j]);
                d = d * (p[i] - p[j]);
            }
        }
        acc = acc + n * inv(d);
    }
    acc
}
/// The multi-point protocol's final commitment and value: (Q', q_i commitments, x_3, v)
/// `coms[c]`, `evals[c][p]`; `proof` = Q', u_1.., then the opening proof
pub fn multiopen_spec(
    h: &mut H,
    sets: &[(Vec<Fp>, Vec<(G, Vec<Fp>)>)],
    proof: &[Item],
    ch: &[Fp],
    k: usize,
    base: G,
) -> G {
    let (x1, x2, x3, x4) = (ch[0], ch[1], ch[2], ch[3]);
    let qp = match proof[0] {
        Item::P(p) => G::from(p),
        _ => panic!(),
    };
    let u: Vec<Fp> = (0..sets.len())
        .map(|i| match proof[1 + i] {
            Item::S(s) => s,
            _ => panic!(),
        })
        .collect();
    let mut msm_eval = Fp::zero();
    let mut qs = vec![];
    for (i, (pts, cs)) in sets.iter().enumerate() {
        // Q_i = sum x1^(m-1-j) C_j
        let mut q = G::identity();
        let mut e = vec![Fp::zero(); pts.len()];
        for (c, ev) in cs {
            q = q * x1 + *c;
            for (a, b) in e.iter_mut().zip(ev) {
                *a = *a * x1 + *b;
            }
        }
        let r = interp_at(pts, &e, x3);
        let mut f = u[i] - r;
        for p in pts {
            f = f * inv(x3 - *p);
        }
        msm_eval = msm_eval * x2 + f;
        qs.push(q);
    }
    let mut p = base + qp;
    let mut v = msm_eval;
    for (i, q) in qs.iter().enumerate() {
        p = p * x4 + *q;
        v = v * x4 + u[i];
    }
    ipa_spec(h, p, x3, v, &proof[1 + sets.len()..], &ch[4..], k)
}

pub fn p09(cx: &mut Cx) {
    cx.functions(&["multiopen::create_proof", "multiopen::verify_proof", "construct_intermediate_sets", "lagrange_interpolate", "kate_division", "MSM"]);
    cx.bound(&format!("{} query patterns (1-4 commitments, 1-3 points, all groupings and orders used by the library); k=1..2 for the prover, k=1..3 for the verifier; symbolic polynomials, blinds, points, evaluations, proof and challenges", QSETS.len()));
    cx.assume("query points are pairwise distinct unless stated; their relative order is that of the sampled representatives (two representatives orders are run)");
    let deep = tier_thorough();
    for (name, nc, np, q) in QSETS.iter().copied() {
        for ord in 0..(if deep { 4 } else { 2 }) {
            for k in 1..=3u32 {
                if k == 3 && ord != 0 {
                    continue;
                }
                cx.run(&format!("verifier/{}/order{}/k{}", name, ord, k), |h| {
                    h.policy = PcPolicy::Path;
                    let params = Params::<GA>::new(k);
                    let pts = points(h, np, ord);
                    let coms: Vec<GA> = (0..nc).map(|i| ga(h.gen(&format!("C{}", i)))).collect();
                    // commitment 1 is given as a linear combination when present
                    let (m0, m1) = (h.fp("m0"), h.fp("m1"));
                    let extra = h.gen("Extra");
                    let mut lin = params.empty_msm();
                    if nc > 1 {
                        lin.append_term(m0, coms[1]);
                        lin.append_term(m1, extra.into());
                    }
                    let cval = |c: usize| if c == 1 { G::from(coms[1]) * m0 + extra * m1 } else { G::from(coms[c]) };
                    let evals: Vec<Vec<Fp>> = (0..nc).map(|c| h.fps(&format!("e{}_", c), np)).collect();
                    let ch = h.fps("ch", 6 + k as usize);
                    let groups = grouping(q);
                    let mut proof = vec![Item::P(ga(h.gen("Qprime")))];
                    for i in 0..groups.len() {
                        proof.push(Item::S(h.fp(&format!("u{}", i))));
                    }
                    proof.extend(sym_ipa_proof(h, "", k as usize));
                    let base = h.gen("Base");
                    let sb = h.fp("sb");
                    let run = |proof: &[Item], q: &[(usize, usize)], twice: Option<Fp>| -> Option<(G, SymT)> {
                        let mut rd = SymT::reader(&ch, proof);
                        let mut msm = params.empty_msm();
                        msm.append_term(sb, base.into());
                        let mut qs: Vec<VerifierQuery<GA>> = q
                            .iter()
                            .map(|(c, p)| {
                                if *c == 1 {
                                    VerifierQuery::new_msm(&lin, pts[*p], evals[*c][*p])
                                } else {
                                    VerifierQuery::new_commitment(&coms[*c], pts[*p], evals[*c][*p])
                                }
                            })
                            .collect();
                        if let Some(e) = twice {
                            qs.push(VerifierQuery::new_commitment(&coms[0], pts[q.iter().find(|x| x.0 == 0).unwrap().1], e));
                        }
                        let g = multiopen::verify_proof(&params, &mut rd, qs, msm).ok()?;
                        Some((msm_point(g.use_challenges()), rd))
                    };
                    let (got, rd) = run(&proof, q, None).expect("well-formed");
                    let sets: Vec<_> = groups
                        .iter()
                        .map(|s| {
                            (
                                s.points.iter().map(|p| pts[*p]).collect::<Vec<_>>(),
                                s.coms.iter().map(|c| (cval(*c), s.points.iter().map(|p| evals[*c][*p]).collect())).collect::<Vec<_>>(),
                            )
                        })
                        .collect();
                    let want = multiopen_spec(h, &sets, &proof, &ch, k as usize, base * sb);
                    h.geq("final equation", got, want);
                    h.ok("whole proof read", rd.pos == proof.len());
                    for l in 0..proof.len() {
                        h.ok("truncated proof is an error", run(&proof[..l], q, None).is_none());
                    }
                    // the same commitment and point with another evaluation is never accepted
                    let other = h.fp("other");
                    h.ok("conflicting evaluation rejected", run(&proof, q, Some(other)).is_none());
                });
            }
            for k in 1..=2u32 {
                if (1usize << k) < np {
                    continue;
                }
                cx.run(&format!("complete/{}/order{}/k{}", name, ord, k), |h| {
                    h.policy = PcPolicy::Path;
                    let params = Params::<GA>::new(k);
                    let d = EvaluationDomain::<Fp>::new(1, k);
                    let n = 1usize << k;
                    // keep the rational functions small: symbolic points only while the pattern is small
                    let heavy = np > 2 || (k == 2 && np > 1);
                    let pts = if heavy { (0..np).map(|i| h.konst(&format!("pt{}{}", ord, i))).collect() } else { points(h, np, ord) };
                    let polys: Vec<Polynomial<Fp, Coeff>> = (0..nc).map(|c| d.coeff_from_vec(h.fps(&format!("a{}_", c), n))).collect();
                    let blinds: Vec<Fp> = (0..nc).map(|c| h.fp(&format!("r{}", c))).collect();
                    let mut ch = h.fps("ch", 6 + k as usize);
                    if heavy {
                        ch[2] = h.konst("x3");
                    }
                    let mut tr = SymT::new(&ch);
                    let pq: Vec<ProverQuery<GA>> = q.iter().map(|(c, p)| ProverQuery { point: pts[*p], poly: &polys[*c], blind: Blind(blinds[*c]) }).collect();
                    let coms: Vec<GA> = (0..nc).map(|c| com(h, &polys[c][..], blinds[c]).into()).collect();
                    sym::set_random_symbolic(true);
                    multiopen::create_proof(&params, Rng(seed()), &mut tr, pq).unwrap();
                    sym::set_random_symbolic(false);
                    let proof = tr.proof();
                    let evals: Vec<Vec<Fp>> = polys.iter().map(|p| pts.iter().map(|x| ev(&p[..], *x)).collect()).collect();
                    let vq: Vec<VerifierQuery<GA>> = q.iter().map(|(c, p)| VerifierQuery::new_commitment(&coms[*c], pts[*p], evals[*c][*p])).collect();
                    let mut rd = SymT::reader(&ch, &proof);
                    let g = multiopen::verify_proof(&params, &mut rd, vq, params.empty_msm()).unwrap();
                    h.geq("accepted", msm_point(g.use_challenges()), G::identity());
                    h.ok("whole proof read", rd.pos == proof.len() && rd.nch == tr.nch);
                });
            }
        }
    }
    cx.run("prover/duplicate-query", |h| {
        let params = Params::<GA>::new(1);
        let d = EvaluationDomain::<Fp>::new(1, 1);
        let p = d.coeff_from_vec(h.fps("a", 2));
        let x = h.fp("x");
        let ch = h.fps("ch", 7);
        let q = || ProverQuery { point: x, poly: &p, blind: Blind(Fp::one()) };
        let mut tr = SymT::new(&ch);
        h.ok("duplicate query is an error", multiopen::create_proof(&params, Rng(1), &mut tr, vec![q(), q()]).is_err());
    });
    cx.witness("evaluation ignored", |h| {
        h.policy = PcPolicy::Path;
        let params = Params::<GA>::new(1);
        let ch = h.fps("ch", 7);
        let c = ga(h.gen("C"));
        let mut proof = vec![Item::P(ga(h.gen("Qprime"))), Item::S(h.fp("u0"))];
        proof.extend(sym_ipa_proof(h, "", 1));
        let (x, e, f) = (h.fp("x"), h.fp("e"), h.fp("e2"));
        let mut go = |e: Fp| {
            let mut rd = SymT::reader(&ch, &proof);
            msm_point(multiopen::verify_proof(&params, &mut rd, vec![VerifierQuery::new_commitment(&c, x, e)], params.empty_msm()).unwrap().use_challenges())
        };
        let (a, b) = (go(e), go(f));
        h.geq("same", a, b);
    });
}
/// symbolic points whose representatives are ordered differently for each `ord`
fn points(h: &mut H, np: usize, ord: usize) -> Vec<Fp> {
    let reps = [[10u64, 20, 30], [30, 20, 10], [20, 30, 10], [20, 10, 30]][ord];
    (0..np).map(|i| h.fp_at(&format!("pt{}", i), Fp::from(reps[i]))).collect()
}
