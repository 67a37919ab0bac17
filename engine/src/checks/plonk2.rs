//! P13 Fiat-Shamir ordering, P14 batch verification, P16 keys, P17 selectors, P20 lookup permutation,
//! P21 blinding, P22 rejection, P23 constraint-system bookkeeping.
use super::pcs::*;
use super::plonk::*;
use super::shapes::*;
use super::symt::*;
use super::util::*;
use crate::core::*;
use crate::poly::{eval_nodes, Limbs};
use crate::symgroup::{self, G, GA};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use group::Group;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::Params;
use halo2_proofs::transcript::{Blake2bRead, Blake2bWrite, Challenge255};
use halo2_proofs::verif;
use pasta_curves::sym::{self, with_dag};
use pasta_curves::Fp;
use rand_core::RngCore;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn keys(sh: &Shape) -> (Params<GA>, VerifyingKey<GA>, ProvingKey<GA>) {
    set_shape(sh);
    let params = Params::<GA>::new(sh.k);
    let vk = keygen_vk(&params, &Circ).expect("keygen_vk");
    let pk = keygen_pk(&params, vk.clone(), &Circ).expect("keygen_pk");
    (params, vk, pk)
}
fn consts(h: &mut H, sh: &Shape, np: usize) -> (Vec<Wit>, Vec<Vec<Vec<Fp>>>) {
    let (mut w, mut i) = (vec![], vec![]);
    for j in 0..np {
        let (a, b) = honest(sh, &mut |n| h.konst(&format!("w{}{}", j, n)));
        w.push(a);
        i.push(b);
    }
    (w, i)
}
fn same_item(h: &mut H, what: &str, a: &Item, b: &Item) {
    match (a, b) {
        (Item::P(a), Item::P(b)) => h.gaeq(what, *a, *b),
        (Item::S(a), Item::S(b)) => h.eq(what, *a, *b),
        _ => h.ok(&format!("{}: kinds differ", what), false),
    }
}

pub fn p13(cx: &mut Cx) {
    cx.functions(&["plonk::create_proof", "plonk::verify_proof", "VerifyingKey::hash_into", "lookup/permutation/vanishing prover and verifier", "multiopen", "commitment"]);
    for sh in shapes() {
        for np in [1usize, 2] {
            for mode in ["witness", "challenges"] {
                cx.run(&format!("{}/proofs{}/{}", sh.name, np, mode), |h| {
                    h.policy = PcPolicy::Path;
                    let (params, vk, pk) = keys(&sh);
                    let ch = challenges(h, sh.k, &|n| mode == "challenges" && ["x", "x1", "x4"].contains(&n));
                    let (mut wits, mut inst) = (vec![], vec![]);
                    for j in 0..np {
                        let (w, i) = honest(&sh, &mut |n| {
                            let n = format!("w{}{}", j, n);
                            if mode == "witness" {
                                h.fp(&n)
                            } else {
                                h.konst(&n)
                            }
                        });
                        wits.push(w);
                        inst.push(i);
                    }
                    set_wits(wits);
                    let refs = as_refs(&inst);
                    let refs: Vec<&[&[Fp]]> = refs.iter().map(|x| &x[..]).collect();
                    let mut tr = SymT::new(&ch);
                    create_proof(&params, &pk, &vec![Circ; np], &refs, Rng(seed()), &mut tr).expect("honest proof");
                    let proof = tr.proof();
                    let mut rd = SymT::reader(&ch, &proof);
                    verify_proof(&params, &vk, Capture(params.empty_msm()), &refs, &mut rd).expect("well-formed");
                    // the two sides absorb the same things in the same order, squeezing at the same places
                    h.ok(&format!("prover {} verifier {}", log_pattern(&tr.log), log_pattern(&rd.log)), log_pattern(&tr.log) == log_pattern(&rd.log));
                    let p = Pub::new(&sh, &vk);
                    let mut common = vec![];
                    let mut first_challenge = None;
                    for (i, (a, b)) in tr.log.iter().zip(rd.log.iter()).enumerate() {
                        match (a, b) {
                            (Ev::Proof(a), Ev::Proof(b)) => same_item(h, &format!("message {}", i), a, b),
                            (Ev::Common(a), Ev::Common(b)) => {
                                same_item(h, &format!("common input {}", i), a, b);
                                common.push(*b);
                            }
                            (Ev::Challenge(a), Ev::Challenge(b)) => {
                                h.ok("challenge index", a == b);
                                first_challenge.get_or_insert(i);
                            }
                            _ => {}
                        }
                    }
                    // every public input is bound before anything else
                    h.ok("common inputs precede the messages", (0..common.len()).all(|i| matches!(rd.log[i], Ev::Common(_))));
                    h.ok("number of common inputs", common.len() == 1 + np * sh.ni);
                    match common[0] {
                        Item::S(s) => h.eq("verifying key digest", s, digest(&vk)),
                        _ => h.ok("verifying key first", false),
                    }
                    let mut at = 1;
                    for j in 0..np {
                        for c in 0..sh.ni {
                            let mut v = inst[j][c].clone();
                            v.resize(1 << sh.k, Fp::zero());
                            let want = com(h, &idft(&v, sh.k), Fp::one());
                            match common[at] {
                                Item::P(g) => h.gaeq("instance commitment", g, want.into()),
                                _ => h.ok("instance commitments are points", false),
                            }
                            at += 1;
                        }
                    }
                    let ns = n_sets(&p, np);
                    let mut fr = FromItems(&proof, 0);
                    let o = read_parts(&p, np, &mut fr);
                    let want = format!("{}{}", o.pattern, opening_pattern(ns, sh.k as usize));
                    h.ok(&format!("protocol order {} vs {}", log_pattern(&rd.log), want), log_pattern(&rd.log) == want);
                });
            }
        }
    }
    cx.run("distinct keys have distinct digests", |h| {
        let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
        let mut all: Vec<(String, Shape)> = shapes().into_iter().map(|s| (s.name.to_string(), s)).collect();
        for s in shapes() {
            let mut t = s.clone();
            t.k += 1;
            all.push((format!("{} larger", s.name), t));
            let mut t = s.clone();
            t.min_degree = Some(s.degree() + 1);
            if t.min_degree.unwrap() > 3 {
                all.push((format!("{} degree", s.name), t));
            }
            if let Some(f) = s.fixed.first() {
                let mut t = s.clone();
                t.fixed[0] = (f.0, f.1, Assigned::from(Fp::from(77)));
                all.push((format!("{} fixed", s.name), t));
            }
            if !s.copies.is_empty() {
                let mut t = s.clone();
                t.copies.remove(0);
                all.push((format!("{} copies", s.name), t));
            }
            if !s.gates.is_empty() {
                let mut t = s.clone();
                let g = t.gates[0][0].clone();
                t.gates[0][0] = g.scale(2);
                all.push((format!("{} gate scaled", s.name), t));
            }
            if !s.lookups.is_empty() {
                let mut t = s.clone();
                let l = t.lookups[0].clone();
                t.lookups.push(l);
                all.push((format!("{} more lookups", s.name), t));
            }
            if s.na > 0 {
                let mut t = s.clone();
                t.na += 1;
                all.push((format!("{} more columns", s.name), t));
            }
        }
        for (n, s) in all {
            set_shape(&s);
            let params = Params::<GA>::new(s.k);
            let vk = keygen_vk(&params, &Circ).unwrap();
            let vk2 = keygen_vk(&params, &Circ).unwrap();
            let d = digest(&vk);
            h.ok(&format!("{}: key generation is deterministic", n), digest(&vk2).to_repr() == d.to_repr());
            let d = d.to_repr().to_vec();
            if let Some(m) = seen.insert(d, n.clone()) {
                h.ok(&format!("keys of {} and {} have the same digest", n, m), false);
            } else {
                h.ok("distinct", true);
            }
        }
    });
}
/// what the key feeds into a transcript
fn digest(vk: &VerifyingKey<GA>) -> Fp {
    // recorded from a verification that stops immediately afterwards
    let mut rd = SymT::reader(&[], &[]);
    let params = Params::<GA>::new(vk_k(vk));
    let n = verif::cs_view(verif::vk_cs(vk)).num_instance;
    let cols: Vec<&[Fp]> = vec![&[]; n];
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = verify_proof(&params, vk, Capture(params.empty_msm()), &[&cols[..]], &mut rd);
    }));
    match rd.log.first() {
        Some(Ev::Common(Item::S(s))) => *s,
        x => panic!("the key is not absorbed first: {:?}", x),
    }
}
fn vk_k(vk: &VerifyingKey<GA>) -> u32 {
    cur_k(vk)
}
fn cur_k(_: &VerifyingKey<GA>) -> u32 {
    current_shape().k
}

pub fn p14(cx: &mut Cx) {
    cx.functions(&["BatchVerifier::{add_proof,finalize}", "MSM::{scale,add_msm,eval}", "TryFoldAndReduce::try_fold_and_reduce", "SingleVerifier::process"]);
    let sh = shapes().remove(2);
    let nmax = if tier_thorough() { 6 } else { 4 };
    for n in 0..=nmax {
        for threads in [1usize, 2, 3, 4] {
            for bad in 0..(1u32 << n) {
                if n > 3 && bad.count_ones() as usize != n && bad.count_ones() > 1 && !(tier_thorough() && n == 4) {
                    continue;
                }
                cx.run(&format!("batch{}/threads{}/bad{:b}", n, threads, bad), |h| {
                    h.policy = PcPolicy::Path;
                    let (params, vk, pk) = keys(&sh);
                    let mut batch = BatchVerifier::<GA>::new();
                    let mut single = vec![];
                    let mut good: Vec<(Vec<Vec<Fp>>, Vec<u8>)> = vec![];
                    let mut marks: Vec<Option<u32>> = vec![];
                    for j in 0..n {
                        let (w, i) = honest(&sh, &mut |nm| h.konst(&format!("w{}{}", j, nm)));
                        set_wits(vec![w]);
                        let refs = as_refs(std::slice::from_ref(&i));
                        let mut tr = Blake2bWrite::<_, GA, Challenge255<GA>>::init(vec![]);
                        create_proof(&params, &pk, &[Circ], &[&refs[0][..]], Rng(seed() + j as u64), &mut tr).expect("honest proof");
                        let mut proof = tr.finalize();
                        good.push((i.clone(), proof.clone()));
                        if bad >> j & 1 == 1 {
                            // an unrelated point in place of the first advice commitment
                            use group::GroupEncoding;
                            let q = h.gen(&format!("unrelated{}", j));
                            proof[..32].copy_from_slice(&GA::from(q).to_bytes());
                            marks.push(Some(*q.coeffs().keys().next().unwrap()));
                        } else {
                            marks.push(None);
                        }
                        let mut rd = Blake2bRead::<_, GA, Challenge255<GA>>::init(&proof[..]);
                        let m = verify_proof(&params, &vk, Capture(params.empty_msm()), &[&refs[0][..]], &mut rd).expect("well-formed");
                        single.push(msm_point(m));
                        let mut rd = Blake2bRead::<_, GA, Challenge255<GA>>::init(&proof[..]);
                        let r = verify_proof(&params, &vk, SingleVerifier::new(&params), &[&refs[0][..]], &mut rd);
                        h.ok("single verification", r.is_ok() == (bad >> j & 1 == 0));
                        batch.add_proof(vec![i], proof);
                    }
                    symgroup::with_tab(|t| t.pcs.clear());
                    sym::set_random_symbolic(h.mode == Mode::Sym);
                    let ok = pool(threads, || batch.finalize(&params, &vk));
                    sym::set_random_symbolic(false);
                    h.ok(&format!("batch accepted: {}", ok), ok == (bad == 0));
                    if h.mode != Mode::Sym {
                        // replay: invalid proofs whose discrepancies cancel for small dependences
                        cancelling(h, n, threads, &|shift| {
                            let mut batch = BatchVerifier::<GA>::new();
                            for (j, (i, p)) in good.iter().enumerate() {
                                let mut p = p.clone();
                                let at = p.len() - 32;
                                let mut b = [0u8; 32];
                                b.copy_from_slice(&p[at..]);
                                let f = Fp::from_repr(b).unwrap() + Fp::from((shift[j] + 8) as u64) - Fp::from(8);
                                p[at..].copy_from_slice(&f.to_repr());
                                batch.add_proof(vec![i.clone()], p);
                            }
                            batch.finalize(&params, &vk)
                        });
                        return;
                    }
                    let last = symgroup::with_tab(|t| t.pcs.last().copied());
                    let fin = match last {
                        Some((lc, _)) => symgroup::get(lc),
                        None => {
                            // constant coefficients: decided by the comparison above
                            h.ok("only an all-valid batch or a single proof evaluates without decision", bad == 0 || n == 1);
                            return;
                        }
                    };
                    // final = Σ c_j msm_j for multipliers c_j, read off at the unrelated points
                    let mut cs: Vec<Fp> = vec![];
                    for (j, m) in marks.iter().enumerate() {
                        if let Some(g) = m {
                            let alpha = single[j].coeffs()[g];
                            let f = fin.get(g).copied().unwrap_or(Fp::zero());
                            cs.push(f * inv(alpha));
                        }
                    }
                    let mut k = 0;
                    let mut want = G::identity();
                    for (j, m) in marks.iter().enumerate() {
                        if m.is_some() {
                            want = want + single[j] * cs[k];
                            k += 1;
                        }
                    }
                    let wc = want.coeffs();
                    let ks: BTreeSet<u32> = wc.keys().chain(fin.keys()).copied().collect();
                    for g in ks {
                        h.eq(
                            &format!("batched equation at {}", symgroup::gen_name(g)),
                            fin.get(&g).copied().unwrap_or(Fp::zero()),
                            wc.get(&g).copied().unwrap_or(Fp::zero()),
                        );
                    }
                    // the multipliers are linearly independent functions of the verifier's randomness
                    h.ok(&format!("{} multipliers are independent", cs.len()), independent(&cs));
                });
            }
        }
    }
    cx.run("malformed proof in a batch", |h| {
        h.policy = PcPolicy::Path;
        let (params, vk, pk) = keys(&sh);
        for cut in [0usize, 31, 32, 500] {
            for pos in 0..3 {
                let mut batch = BatchVerifier::<GA>::new();
                for j in 0..3 {
                    let (w, i) = honest(&sh, &mut |nm| h.konst(&format!("{}{}{}{}", cut, pos, j, nm)));
                    set_wits(vec![w]);
                    let refs = as_refs(std::slice::from_ref(&i));
                    let mut tr = Blake2bWrite::<_, GA, Challenge255<GA>>::init(vec![]);
                    create_proof(&params, &pk, &[Circ], &[&refs[0][..]], Rng(j), &mut tr).expect("honest proof");
                    let mut proof = tr.finalize();
                    if j == pos {
                        proof.truncate(cut);
                    }
                    batch.add_proof(vec![i], proof);
                }
                h.ok("refused", !batch.finalize(&params, &vk));
            }
        }
    });
}
/// tries all small non-zero discrepancies of the blinding scalar
fn cancelling(h: &mut H, n: usize, threads: usize, run: &(dyn Fn(&[i64]) -> bool + Sync)) {
    if n > 5 {
        return;
    }
    for code in 1..3i64.pow(n as u32) {
        let shift: Vec<i64> = (0..n as u32).map(|j| code / 3i64.pow(j) % 3 - 1).collect();
        if shift.iter().all(|s| *s == 0) {
            continue;
        }
        let ok = pool(threads, || run(&shift));
        h.ok(&format!("invalid proofs with discrepancies {:?} accepted together", shift), !ok);
    }
}
/// linear independence over the field, witnessed by evaluations at random points
pub fn independent(cs: &[Fp]) -> bool {
    let n = cs.len();
    if n == 0 {
        return true;
    }
    let nodes = with_dag(|d| d.nodes.clone());
    let names: HashMap<u32, String> = with_dag(|d| d.names.clone());
    let mut m: Vec<Vec<Fp>> = vec![];
    for row in 0..n {
        let mut assign: HashMap<u32, Limbs> = HashMap::new();
        for (v, nm) in &names {
            let mut b = [0u8; 64];
            Rng(seed() ^ (row as u64) << 32 ^ nm.bytes().fold(7u64, |a, c| a.wrapping_mul(131).wrapping_add(c as u64))).fill_bytes(&mut b);
            assign.insert(*v, Fp::from_uniform_bytes(&b).v.limbs_raw());
        }
        let vals = eval_nodes(&nodes, &assign, nodes.len());
        m.push(cs.iter().map(|c| if c.t == 0 { c.shadow() } else { Fp::from_limbs(vals[c.t as usize]) }).collect());
    }
    // rank
    let mut rank = 0;
    for c in 0..n {
        if let Some(p) = (rank..n).find(|r| m[*r][c] != Fp::zero()) {
            m.swap(rank, p);
            let iv = inv(m[rank][c]);
            for r in rank + 1..n {
                let f = m[r][c] * iv;
                for k in c..n {
                    let x = m[rank][k];
                    m[r][k] = m[r][k] - f * x;
                }
            }
            rank += 1;
        }
    }
    rank == n
}

struct Uf(Vec<usize>);
impl Uf {
    fn root(&mut self, mut x: usize) -> usize {
        while self.0[x] != x {
            x = self.0[x];
        }
        x
    }
    fn join(&mut self, a: usize, b: usize) {
        let (a, b) = (self.root(a), self.root(b));
        self.0[a] = b;
    }
}

pub fn p16(cx: &mut Cx) {
    cx.functions(&["keygen_vk", "keygen_pk", "permutation::keygen::Assembly::{copy,build_vk,build_pk}", "compress_selectors", "batch_invert_assigned"]);
    let trials = if tier_thorough() { 150 } else { 40 };
    for sh in shapes() {
        cx.run(&format!("key material/{}", sh.name), |h| {
            h.policy = PcPolicy::Path;
            // symbolic fixed contents
            let mut sh = sh.clone();
            let fx: Vec<(usize, usize)> = sh.fixed.iter().map(|x| (x.0, x.1)).collect();
            for (i, (c, r)) in fx.iter().enumerate() {
                let v = h.fp(&format!("f{}_{}", c, r));
                sh.fixed[i].2 = if i % 2 == 0 { Assigned::Trivial(v) } else { Assigned::Rational(v, h.fp(&format!("d{}_{}", c, r))) };
            }
            let (_, vk, pk) = keys(&sh);
            let p = Pub::new(&sh, &vk);
            let v = verif::pk_view(&pk);
            let n = 1usize << sh.k;
            let fixed = sh.fixed_values();
            h.ok("number of fixed columns", v.fixed_values.len() == p.fixed_c.len() && v.fixed_values.len() >= fixed.len());
            for (c, f) in fixed.iter().enumerate() {
                h.eqs(&format!("fixed column {}", c), &v.fixed_values[c], f);
            }
            let mut ek = sh.k;
            while (1usize << ek) < n * (sh.degree() - 1) {
                ek += 1;
            }
            let pts: Vec<Fp> = (0..1usize << ek).map(|i| Fp::ZETA * wpow(ek, i as i64)).collect();
            let coset = |poly: &[Fp]| -> Vec<Fp> { pts.iter().map(|p| ev(poly, *p)).collect() };
            for c in 0..v.fixed_values.len() {
                let poly = idft(&v.fixed_values[c], sh.k);
                h.eqs("fixed polynomial", &v.fixed_polys[c], &poly);
                h.eqs("fixed coset", &v.fixed_cosets[c], &coset(&poly));
                let g = com(h, &poly, Fp::one());
                h.gaeq("fixed commitment", p.fixed_c[c], g.into());
            }
            for c in 0..p.perm.len() {
                let poly = idft(&v.permutations[c], sh.k);
                h.eqs("permutation polynomial", &v.perm_polys[c], &poly);
                h.eqs("permutation coset", &v.perm_cosets[c], &coset(&poly));
                let g = com(h, &poly, Fp::one());
                h.gaeq("permutation commitment", p.perm_c[c], g.into());
            }
            let ind = |f: &dyn Fn(usize) -> bool| -> Vec<Fp> { idft(&(0..n).map(|i| if f(i) { Fp::one() } else { Fp::zero() }).collect::<Vec<_>>(), sh.k) };
            let us = sh.usable();
            h.eqs("l_0", &v.l0, &coset(&ind(&|i| i == 0)));
            h.eqs("l_last", &v.l_last, &coset(&ind(&|i| i == us)));
            h.eqs("l_blind", &v.l_blind, &coset(&ind(&|i| i > us)));
        });
    }
    // copy constraints: the committed permutation has exactly the classes of equal cells as cycles
    for t in 0..trials {
        cx.run(&format!("copies/{}", t), |h| {
            h.policy = PcPolicy::Path;
            let mut rng = Rng(seed() * 1000 + t);
            let mut sh = Shape { name: "copies", k: 4, na: 2 + (t % 3) as usize, nf: 1, ni: 1, ..Default::default() };
            sh.gates = vec![vec![f(0) * a(0, 0)]];
            let mut cols: Vec<Col> = (0..sh.na).map(Col::A).collect();
            cols.push(Col::I(0));
            cols.push(Col::F(0));
            // an order of enabling
            for i in (1..cols.len()).rev() {
                cols.swap(i, rng.next_u32() as usize % (i + 1));
            }
            sh.equality = cols.clone();
            let us = sh.usable();
            let rows = if t % 2 == 0 { 3 } else { us };
            let m = 1 + rng.next_u32() as usize % 14;
            let cell = |rng: &mut Rng| (cols[rng.next_u32() as usize % cols.len()], rng.next_u32() as usize % rows);
            for _ in 0..m {
                let l = cell(&mut rng);
                let r = cell(&mut rng);
                sh.copies.push((l, r));
                if rng.next_u32() % 4 == 0 {
                    sh.copies.push((r, l));
                }
            }
            let (_, vk, pk) = keys(&sh);
            let p = Pub::new(&sh, &vk);
            h.ok("columns of the permutation", p.perm == sh.permutation());
            let n = 1usize << sh.k;
            let id = |c: Col, r: usize| p.perm.iter().position(|x| *x == c).unwrap() * n + r;
            let mut uf = Uf((0..n * cols.len()).collect());
            for (l, r) in &sh.copies {
                uf.join(id(l.0, l.1), id(r.0, r.1));
            }
            let v = verif::pk_view(&pk);
            // symbolic contents, one value per class
            let mut vals: HashMap<usize, Fp> = HashMap::new();
            for i in 0..n * cols.len() {
                let r = uf.root(i);
                if !vals.contains_key(&r) {
                    let x = h.fp(&format!("v{}", r));
                    vals.insert(r, x);
                }
            }
            let (beta, gamma) = (h.fp("beta"), h.fp("gamma"));
            let (mut l, mut r) = (Fp::one(), Fp::one());
            let name = |c: usize, i: usize| Fp::DELTA.pow_vartime([c as u64]) * wpow(sh.k, i as i64);
            for c in 0..cols.len() {
                for i in 0..n {
                    let x = vals[&uf.root(c * n + i)];
                    l = l * (x + beta * name(c, i) + gamma);
                    r = r * (x + beta * v.permutations[c][i] + gamma);
                }
            }
            h.eq("grand product over equal cells", l, r);
            // and equality is forced along each class: its cells form a single cycle
            let mut label: HashMap<[u8; 32], usize> = HashMap::new();
            for c in 0..cols.len() {
                for i in 0..n {
                    label.insert(name(c, i).to_repr(), c * n + i);
                }
            }
            for i in 0..n * cols.len() {
                let mut seen = BTreeSet::new();
                let mut at = i;
                while seen.insert(at) {
                    at = *label.get(&v.permutations[at / n][at % n].to_repr()).expect("a cell name");
                }
                let want: BTreeSet<usize> = (0..n * cols.len()).filter(|j| uf.root(*j) == uf.root(i)).collect();
                h.ok(&format!("cycle of cell {}", i), seen == want);
            }
        });
    }
    // rows beyond the usable ones are refused
    cx.run("row limits", |h| {
        for sh in shapes() {
            let us = sh.usable();
            for r in [us - 1, us, (1 << sh.k) - 1] {
                let mut variants = vec![];
                if sh.nf > 0 {
                    let mut t = sh.clone();
                    t.fixed.push((0, r, Assigned::from(Fp::from(5))));
                    variants.push(t);
                }
                if !sh.sel.is_empty() {
                    let mut t = sh.clone();
                    t.enable.push((0, r));
                    variants.push(t);
                }
                if let Some(c) = sh.equality.first() {
                    let mut t = sh.clone();
                    t.copies.push(((*c, 0), (*c, r)));
                    variants.push(t);
                    let mut t = sh.clone();
                    t.copies.push(((*c, r), (*c, 0)));
                    variants.push(t);
                }
                for t in variants {
                    set_shape(&t);
                    let params = Params::<GA>::new(t.k);
                    let e = keygen_vk(&params, &Circ);
                    let ok = match &e {
                        Ok(_) => r < us,
                        Err(Error::NotEnoughRowsAvailable { current_k }) => r >= us && *current_k == t.k,
                        Err(_) => false,
                    };
                    h.ok(&format!("{}: row {} of {}", t.name, r, us), ok);
                    set_shape(&sh);
                    let vk = keygen_vk(&params, &Circ).unwrap();
                    set_shape(&t);
                    h.ok("proving key", keygen_pk(&params, vk, &Circ).is_ok() == (r < us));
                }
            }
            // too small
            for k in 1..sh.k {
                let mut t = sh.clone();
                t.k = k;
                let min = t.blinding() + 3;
                set_shape(&t);
                let params = Params::<GA>::new(k);
                let r = keygen_vk(&params, &Circ);
                if (1usize << k) < min {
                    h.ok("too few rows", matches!(r, Err(Error::NotEnoughRowsAvailable { .. })));
                }
            }
        }
        // a column outside the permutation
        let mut t = shapes().remove(2);
        t.copies.push(((Col::F(0), 0), (Col::A(0), 0)));
        set_shape(&t);
        let params = Params::<GA>::new(t.k);
        h.ok("column without equality", matches!(keygen_vk(&params, &Circ), Err(Error::ColumnNotInPermutation(_))));
    });
}

/// a random expression without simple selectors
fn random_expr(rng: &mut Rng, sh: &Shape, depth: u32) -> E {
    let r = rng.next_u32();
    if depth == 0 || r % 5 == 0 {
        return match (r / 5) % 5 {
            0 if sh.nf > 0 => f(r as usize / 25 % sh.nf),
            1 if sh.ni > 0 => i(r as usize / 25 % sh.ni, (r / 100 % 3) as i32 - 1),
            2 => c((r / 25 % 7) as u64),
            _ => a(r as usize / 25 % sh.na, (r / 100 % 5) as i32 - 2),
        };
    }
    match r / 5 % 6 {
        0 | 1 => random_expr(rng, sh, depth - 1) + random_expr(rng, sh, depth - 1),
        2 => random_expr(rng, sh, depth - 1) - random_expr(rng, sh, depth - 1),
        3 => random_expr(rng, sh, depth - 1) * random_expr(rng, sh, depth - 1),
        4 => -random_expr(rng, sh, depth - 1),
        _ => random_expr(rng, sh, depth - 1).scale((r / 30 % 9) as u64),
    }
}
fn random_shape(rng: &mut Rng) -> Shape {
    let mut sh = Shape { name: "random", k: 4, na: 1 + rng.next_u32() as usize % 3, nf: rng.next_u32() as usize % 3, ni: rng.next_u32() as usize % 2, ..Default::default() };
    let ns = 1 + rng.next_u32() as usize % 9;
    for _ in 0..ns {
        sh.sel.push(rng.next_u32() % 5 != 0);
    }
    let ng = 1 + rng.next_u32() as usize % 9;
    for _ in 0..ng {
        let si = rng.next_u32() as usize % ns;
        let np = 1 + rng.next_u32() as usize % 2;
        let mut ps = vec![];
        for _ in 0..np {
            let d = rng.next_u32() % 4;
            let e = random_expr(rng, &sh, d);
            ps.push(match rng.next_u32() % 5 {
                0 => e * s(si),
                1 if !sh.sel[si] => (c(1) - s(si)) * e,
                2 => (s(si) * e).scale(3),
                _ => s(si) * e,
            });
        }
        sh.gates.push(ps);
    }
    if rng.next_u32() % 3 == 0 {
        if let Some(q) = sh.sel.iter().position(|x| !*x) {
            sh.tables = 1 + rng.next_u32() as usize % 3;
            sh.table = vec![vec![Fp::zero(), Fp::one()]; sh.tables];
            for _ in 0..1 + rng.next_u32() % 2 {
                let mut l = vec![];
                for t in 0..1 + rng.next_u32() as usize % sh.tables {
                    let d = rng.next_u32() % 4;
                    let e = random_expr(rng, &sh, d);
                    l.push((if rng.next_u32() % 2 == 0 { s(q) * e } else { e }, t));
                }
                sh.lookups.push(l);
            }
        }
    }
    let rows = sh.usable();
    // mutually exclusive more often than not
    let style = rng.next_u32() % 3;
    for r in 0..rows {
        if style < 2 {
            let q = rng.next_u32() as usize % (ns + 1);
            if q < ns {
                sh.enable.push((q, r));
            }
        }
        if style > 0 {
            for q in 0..ns {
                if rng.next_u32() % 4 == 0 {
                    sh.enable.push((q, r));
                }
            }
        }
    }
    sh
}
/// the selector a gate expression is multiplied by
fn selector_of(e: &E, simple: &[bool]) -> Option<usize> {
    let mut r = None;
    e.visit(&mut |x| {
        if let E::S(q) = x {
            if simple[*q] {
                r = Some(*q)
            }
        }
    });
    r
}

pub fn p17(cx: &mut Cx) {
    cx.functions(&["plonk::circuit::compress_selectors::process", "ConstraintSystem::compress_selectors", "exclusion matrix and combination"]);
    let trials = if tier_thorough() { 1500 } else { 250 };
    for t in 0..trials {
        cx.run(&format!("gates/{}", t), |h| {
            let mut rng = Rng(seed() * 77_000 + t);
            let sh = random_shape(&mut rng);
            let mut cs = ConstraintSystem::<Fp>::default();
            configure(&sh, &mut cs);
            let n = 1usize << sh.k;
            let mut act = vec![vec![false; n]; sh.sel.len()];
            for (q, r) in &sh.enable {
                act[*q][*r] = true;
            }
            let deg = cs.degree();
            let (cs2, cols) = verif::compress_selectors(cs, act.clone());
            h.ok(&format!("degree {} grew to {}", deg, cs2.degree()), cs2.degree() <= deg);
            let base = sh.nf + sh.tables;
            let view = verif::cs_view(&cs2);
            h.ok("columns added", view.num_fixed == base + cols.len());
            h.ok("each selector is mapped", view.selector_map.len() == sh.sel.len());
            let gates: Vec<Vec<Expression<Fp>>> = verif::gates(&cs2).into_iter().map(|g| g.1).collect();
            h.ok("gates kept", gates.len() == sh.gates.len() && gates.iter().zip(&sh.gates).all(|(a, b)| a.len() == b.len()));
            let mut adv: HashMap<(usize, i32), Fp> = HashMap::new();
            let mut ins: HashMap<(usize, i32), Fp> = HashMap::new();
            let mut fx: Vec<Fp> = vec![];
            for c in 0..sh.na {
                for r in -2..=2 {
                    adv.insert((c, r), h.fp(&format!("a{}_{}", c, r)));
                }
            }
            for c in 0..sh.ni {
                for r in -2..=2 {
                    ins.insert((c, r), h.fp(&format!("i{}_{}", c, r)));
                }
            }
            for c in 0..base {
                fx.push(h.fp(&format!("f{}", c)));
            }
            for r in 0..n {
                let lib = |e: &Expression<Fp>| {
                    eval_expr(e, &|c, q| adv[&(c, q)], &|c| if c < base { fx[c] } else { cols[c - base][r] }, &|c, q| ins[&(c, q)])
                };
                let own = |e: &E| {
                    e.eval(&|l| match l {
                        E::A(c, q) => adv[&(*c, *q)],
                        E::I(c, q) => ins[&(*c, *q)],
                        E::F(c) => fx[*c],
                        E::S(q) => {
                            if act[*q][r] {
                                Fp::one()
                            } else {
                                Fp::zero()
                            }
                        }
                        _ => unreachable!(),
                    })
                };
                for (gi, g) in sh.gates.iter().enumerate() {
                    for (pi, e) in g.iter().enumerate() {
                        let (x, y) = (lib(&gates[gi][pi]), own(e));
                        let what = format!("row {} gate {}.{}", r, gi, pi);
                        if selector_of(e, &sh.sel).map(|q| act[q][r]).unwrap_or(false) && y.shadow() != Fp::zero() {
                            // the same constraint up to a non-zero constant
                            let k = x.shadow() * inv(y.shadow());
                            h.ok(&format!("{}: disabled", what), k != Fp::zero());
                            h.eq(&what, x, y * k);
                        } else {
                            h.eq(&what, x, y);
                        }
                    }
                }
                for (li, (i, tb)) in verif::lookups(&cs2).iter().enumerate() {
                    for (k, (e, t)) in sh.lookups[li].iter().enumerate() {
                        h.eq(&format!("row {} lookup {}", r, li), lib(&i[k]), own(e));
                        h.eq(&format!("row {} table {}", r, li), lib(&tb[k]), fx[sh.nf + t]);
                    }
                }
            }
        });
    }
}

pub fn p20(cx: &mut Cx) {
    cx.functions(&["lookup::prover::permute_expression_pair"]);
    let trials = if tier_thorough() { 600 } else { 120 };
    let sh = Shape {
        name: "lk",
        k: 4,
        na: 1,
        sel: vec![false],
        tables: 1,
        lookups: vec![vec![(s(0) * a(0, 0), 0)]],
        table: vec![vec![Fp::zero(), Fp::one()]],
        ..Default::default()
    };
    for t in 0..trials {
        cx.run(&format!("pattern/{}", t), |h| {
            h.policy = PcPolicy::Path;
            let (params, _, pk) = keys(&sh);
            let n = 1usize << sh.k;
            let us = sh.usable();
            let mut rng = Rng(seed() * 31_000 + t);
            // table with a pattern of repetitions; inputs drawn from it
            let distinct = 1 + rng.next_u32() as usize % us;
            let vals: Vec<Fp> = h.fps("t", distinct);
            let beyond: Vec<Fp> = h.fps("b", 2 * (n - us));
            let mut table: Vec<Fp> = (0..us).map(|i| if i < distinct { vals[i] } else { vals[rng.next_u32() as usize % distinct] }).collect();
            for i in (1..us).rev() {
                table.swap(i, rng.next_u32() as usize % (i + 1));
            }
            let narrow = 1 + rng.next_u32() as usize % distinct;
            let mut input: Vec<Fp> = (0..us).map(|_| vals[rng.next_u32() as usize % narrow]).collect();
            let missing = t % 6 == 5;
            if missing {
                // perhaps present in the unusable rows of the table
                input[rng.next_u32() as usize % us] = if t % 12 == 5 { h.fp("absent") } else { beyond[rng.next_u32() as usize % (n - us)] };
            }
            // the unusable rows hold anything, even the missing value
            let ti = [&table[..], &beyond[..n - us]].concat();
            let ii = [&input[..], &beyond[n - us..]].concat();
            let r = verif::verif_permute_expression_pair(&pk, &params, Rng(t), ii, ti);
            let (pa, ps) = match r {
                Err(e) => {
                    h.ok("refused only for a value outside the table", missing && matches!(e, Error::ConstraintSystemFailure));
                    return;
                }
                Ok(x) => x,
            };
            h.ok("a value outside the table is refused", !missing);
            h.ok("lengths", pa.len() == n && ps.len() == n);
            let b = h.fp("beta");
            let prod = |v: &[Fp]| v.iter().fold(Fp::one(), |acc, x| acc * (*x + b));
            h.eq("permuted input", prod(&pa[..us]), prod(&input));
            h.eq("permuted table", prod(&ps[..us]), prod(&table));
            for i in 0..us {
                let same = i == 0 || pa[i].shadow() == ps[i].shadow();
                h.eq(&format!("row {}", i), pa[i], if same { ps[i] } else { pa[i - 1] });
            }
        });
    }
}

/// random variable with this shadow
fn rnd_var(x: Fp) -> Option<(String, Fp)> {
    let l = x.v.limbs_raw();
    let f = with_dag(|d| d.names.iter().find(|(t, n)| n.starts_with("rnd") && d.nodes[**t as usize].val == l).map(|(t, n)| (n.clone(), *t)));
    f.map(|(n, t)| (n, Fp::from_term(t)))
}
fn fresh(h: &mut H, what: &str, x: Fp, used: &mut BTreeSet<String>) {
    if h.mode != Mode::Sym {
        // replay: the very value drawn, and drawn once
        let l = x.v.limbs_raw();
        match with_dag(|d| d.drawn.iter().position(|(f, v)| *f == 0 && *v == l)) {
            None => h.ok(&format!("{} is not fresh randomness", what), false),
            Some(i) => h.ok(&format!("{}: draw {} used twice", what, i), used.insert(i.to_string())),
        }
        return;
    }
    match rnd_var(x) {
        None => h.ok(&format!("{} is not fresh randomness", what), false),
        Some((n, v)) => {
            h.ok(&format!("{}: {} used twice", what, n), used.insert(n));
            h.eq(what, x, v);
        }
    }
}
pub fn p21(cx: &mut Cx) {
    cx.functions(&["plonk::create_proof (blinding rows, blinds)", "permutation::prover::commit", "lookup::prover::{commit_permuted,commit_product}", "vanishing::prover::{commit,construct}", "multiopen::create_proof", "commitment::create_proof"]);
    for sh in shapes() {
        for np in [1usize, 2] {
            cx.run(&format!("{}/proofs{}", sh.name, np), |h| {
                let r = prove_until_openings(h, &sh, np, &|n| n == "rng");
                let (p, o) = (&r.p, &r.parts);
                let n = 1usize << sh.k;
                let us = sh.usable();
                let mut used = BTreeSet::new();
                let mut queried: BTreeMap<usize, usize> = BTreeMap::new();
                for (c, _) in &p.view.advice_queries {
                    *queried.entry(*c).or_insert(0) += 1;
                }
                // an advice column is opened at its query points, at the multi-opening point, and one more is spare
                h.ok("enough blinding rows", queried.values().all(|q| p.view.num_advice == 0 || n - us - 1 >= q + 2));
                h.ok("enough blinding rows for products and permuted columns", n - us - 1 >= 3 + 2);
                macro_rules! col {
                    ($what:expr, $g:expr, $from:expr) => {{
                        let (poly, blind) = opened(h, $g, sh.k);
                        for i in $from..n {
                            let v = ev(&poly, wpow(sh.k, i as i64));
                            fresh(h, &format!("{} row {}", $what, i), v, &mut used);
                        }
                        fresh(h, &format!("{} blind", $what), blind, &mut used);
                    }};
                }
                for j in 0..np {
                    for (c, g) in o.advice[j].iter().enumerate() {
                        col!(format!("advice {}", c), *g, us);
                    }
                    for (a, s) in &o.permuted[j] {
                        col!("permuted input", *a, us);
                        col!("permuted table", *s, us);
                    }
                    for z in &o.perm_z[j] {
                        col!("permutation product", *z, us + 1);
                    }
                    for z in &o.look_z[j] {
                        col!("lookup product", *z, us + 1);
                    }
                }
                // the random polynomial hides the quotient's evaluation
                let (poly, blind) = opened(h, o.random.unwrap(), sh.k);
                for (i, c) in poly.iter().enumerate() {
                    fresh(h, &format!("random polynomial coefficient {}", i), *c, &mut used);
                }
                fresh(h, "random polynomial blind", blind, &mut used);
                for (i, g) in o.hs.clone().into_iter().enumerate() {
                    let (_, blind) = opened(h, g, sh.k);
                    fresh(h, &format!("quotient {} blind", i), blind, &mut used);
                }
            });
        }
    }
}

pub fn p22(cx: &mut Cx) {
    cx.functions(&["plonk::create_proof", "plonk::verify_proof", "Blake2bRead::{read_point,read_scalar}", "SingleVerifier::process"]);
    for sh in shapes() {
        let np = if sh.name == "plonk" { 2 } else { 1 };
        cx.run(&format!("{}/truncation and counts", sh.name), |h| {
            h.policy = PcPolicy::Path;
            let (params, vk, pk) = keys(&sh);
            let ch = challenges(h, sh.k, &|n| n == "x4");
            let (wits, inst) = consts(h, &sh, np);
            set_wits(wits.clone());
            let refs = as_refs(&inst);
            let refs: Vec<&[&[Fp]]> = refs.iter().map(|x| &x[..]).collect();
            let mut tr = SymT::new(&ch);
            create_proof(&params, &pk, &vec![Circ; np], &refs, Rng(seed()), &mut tr).expect("honest proof");
            let proof = tr.proof();
            for cut in 0..proof.len() {
                let mut rd = SymT::reader(&ch, &proof[..cut]);
                h.ok(&format!("proof cut to {} items accepted", cut), verify_proof(&params, &vk, Capture(params.empty_msm()), &refs, &mut rd).is_err());
            }
            let mut rd = SymT::reader(&ch, &proof);
            let v = verify_proof(&params, &vk, SingleVerifier::new(&params), &refs, &mut rd);
            h.ok("honest proof accepted", v.is_ok());
            // every single item replaced
            for k in 0..proof.len() {
                let mut bad = proof.clone();
                bad[k] = match bad[k] {
                    Item::P(g) => Item::P((G::from(g) + gen_g(h, 1)).into()),
                    Item::S(x) => Item::S(x + Fp::one()),
                };
                let mut rd = SymT::reader(&ch, &bad);
                let v = verify_proof(&params, &vk, SingleVerifier::new(&params), &refs, &mut rd);
                h.ok(&format!("item {} altered: accepted", k), v.is_err());
            }
            // wrong instance shapes
            let us = sh.usable();
            for j in 0..np {
                for c in 0..sh.ni {
                    for len in [us, us + 1, 1 << sh.k, (1 << sh.k) + 1] {
                        let mut i2 = inst.clone();
                        i2[j][c].resize(len, Fp::zero());
                        let r2 = as_refs(&i2);
                        let r2: Vec<&[&[Fp]]> = r2.iter().map(|x| &x[..]).collect();
                        let mut rd = SymT::reader(&ch, &proof);
                        let v = verify_proof(&params, &vk, SingleVerifier::new(&params), &r2, &mut rd);
                        h.ok(
                            &format!("instance of {} rows", len),
                            match v {
                                Ok(_) => len <= us,
                                Err(Error::InstanceTooLarge) => len > us,
                                Err(_) => false,
                            },
                        );
                        set_wits(wits.clone());
                        let mut tr = SymT::new(&ch);
                        let v = create_proof(&params, &pk, &vec![Circ; np], &r2, Rng(seed()), &mut tr);
                        h.ok(&format!("proving with instance of {} rows", len), v.is_ok() == (len <= us));
                    }
                    let mut i2 = inst.clone();
                    for r in 0..us {
                        i2 = inst.clone();
                        i2[j][c].resize(us, Fp::zero());
                        i2[j][c][r] = i2[j][c][r] + Fp::one();
                        let r2 = as_refs(&i2);
                        let r2: Vec<&[&[Fp]]> = r2.iter().map(|x| &x[..]).collect();
                        let mut rd = SymT::reader(&ch, &proof);
                        let v = verify_proof(&params, &vk, SingleVerifier::new(&params), &r2, &mut rd);
                        h.ok(&format!("another instance value at row {}", r), matches!(v, Err(Error::ConstraintSystemFailure)));
                    }
                    // fewer columns, more columns
                    i2 = inst.clone();
                    i2[j].pop();
                    let mut i3 = inst.clone();
                    i3[j].push(vec![]);
                    for x in [i2, i3] {
                        let r2 = as_refs(&x);
                        let r2: Vec<&[&[Fp]]> = r2.iter().map(|x| &x[..]).collect();
                        let mut rd = SymT::reader(&ch, &proof);
                        let v = verify_proof(&params, &vk, SingleVerifier::new(&params), &r2, &mut rd);
                        h.ok("number of instance columns", matches!(v, Err(Error::InvalidInstances)));
                        set_wits(wits.clone());
                        let mut tr = SymT::new(&ch);
                        let v = create_proof(&params, &pk, &vec![Circ; np], &r2, Rng(seed()), &mut tr);
                        h.ok("number of instance columns when proving", matches!(v, Err(Error::InvalidInstances)));
                    }
                }
            }
            set_wits(wits.clone());
            let mut tr = SymT::new(&ch);
            let v = create_proof(&params, &pk, &vec![Circ; np + 1], &refs, Rng(seed()), &mut tr);
            h.ok("circuits and instances differ in number", matches!(v, Err(Error::InvalidInstances)));
            // witness cells outside the usable rows
            if sh.na > 0 {
                for r in [us - 1, us, (1 << sh.k) - 1] {
                    let mut w = wits.clone();
                    if r < us && w[0].iter().any(|x| x.0 == 0 && x.1 == r) {
                        continue;
                    }
                    w[0].push((0, r, Assigned::from(Fp::zero())));
                    set_wits(w);
                    let mut tr = SymT::new(&ch);
                    let v = create_proof(&params, &pk, &vec![Circ; np], &refs, Rng(seed()), &mut tr);
                    h.ok(&format!("witness at row {}", r), v.is_ok() == (r < us));
                }
            }
        });
    }
    // byte level
    cx.run("encodings", |h| {
        h.policy = PcPolicy::Path;
        let sh = shapes().remove(2);
        let (params, vk, pk) = keys(&sh);
        let (wits, inst) = consts(h, &sh, 1);
        set_wits(wits);
        let refs = as_refs(&inst);
        let mut tr = Blake2bWrite::<_, GA, Challenge255<GA>>::init(vec![]);
        create_proof(&params, &pk, &[Circ], &[&refs[0][..]], Rng(3), &mut tr).expect("honest proof");
        let proof = tr.finalize();
        let check = |p: &[u8]| {
            let mut rd = Blake2bRead::<_, GA, Challenge255<GA>>::init(p);
            verify_proof(&params, &vk, SingleVerifier::new(&params), &[&refs[0][..]], &mut rd)
        };
        h.ok("honest bytes", check(&proof).is_ok());
        let pat = {
            let p = Pub::new(&sh, &vk);
            let mut o = String::new();
            let items: Vec<Item> = vec![];
            let _ = items;
            struct Rec(String);
            impl Source for Rec {
                fn p(&mut self) -> G {
                    self.0.push('P');
                    G::identity()
                }
                fn s(&mut self) -> Fp {
                    self.0.push('S');
                    Fp::zero()
                }
            }
            let mut r = Rec(String::new());
            read_parts(&p, 1, &mut r);
            o += &r.0;
            o += &opening_pattern(n_sets(&p, 1), sh.k as usize).replace('c', "");
            o
        };
        h.ok(&format!("proof length {} for {}", proof.len(), pat), proof.len() == 32 * pat.len());
        // the modulus and the identity are not encodings of proof items
        let p_bytes = {
            let mut b = (-Fp::one()).to_repr();
            b[0] += 1;
            b
        };
        for (k, kind) in pat.chars().enumerate() {
            let mut bad = proof.clone();
            if kind == 'S' {
                bad[32 * k..32 * k + 32].copy_from_slice(&p_bytes);
                h.ok(&format!("scalar {} not reduced", k), matches!(check(&bad), Err(Error::Transcript(_)) | Err(Error::Opening)));
                let mut bad = proof.clone();
                bad[32 * k..32 * k + 32].copy_from_slice(&[255u8; 32]);
                h.ok(&format!("scalar {} too large", k), check(&bad).is_err());
            } else {
                bad[32 * k..32 * k + 32].copy_from_slice(&[0u8; 32]);
                h.ok(&format!("point {} is the identity", k), check(&bad).is_err());
                bad[32 * k..32 * k + 32].copy_from_slice(&[255u8; 32]);
                h.ok(&format!("point {} is not a point", k), check(&bad).is_err());
            }
            for cut in [32 * k, 32 * k + 1, 32 * k + 31] {
                h.ok(&format!("cut at byte {}", cut), check(&proof[..cut]).is_err());
            }
            let mut bad = proof.clone();
            bad[32 * k] ^= 1;
            h.ok(&format!("bit flip in item {}", k), check(&bad).is_err());
        }
    });
}

pub fn p23(cx: &mut Cx) {
    cx.functions(&["Expression::{evaluate,degree}", "Expression operators", "ConstraintSystem::{create_gate,lookup,query_*_index,degree,blinding_factors,minimum_rows,enable_equality,enable_constant}", "VirtualCells", "Constraints::with_selector"]);
    let trials = if tier_thorough() { 2000 } else { 300 };
    for t in 0..trials {
        cx.run(&format!("expressions/{}", t), |h| {
            let mut rng = Rng(seed() * 555_000 + t);
            let mut sh = random_shape(&mut rng);
            for c in 0..sh.na {
                if rng.next_u32() % 3 == 0 {
                    sh.equality.push(Col::A(c));
                }
            }
            if sh.ni > 0 && rng.next_u32() % 2 == 0 {
                sh.equality.push(Col::I(0));
            }
            if sh.nf > 0 && rng.next_u32() % 2 == 0 {
                sh.constants.push(0);
            }
            if rng.next_u32() % 3 == 0 {
                sh.min_degree = Some(1 + rng.next_u32() as usize % 12);
            }
            let mut cs = ConstraintSystem::<Fp>::default();
            configure(&sh, &mut cs);
            h.ok(&format!("degree {} expected {}", cs.degree(), sh.degree()), cs.degree() == sh.degree());
            h.ok(&format!("blinding factors {} expected {}", cs.blinding_factors(), sh.blinding()), cs.blinding_factors() == sh.blinding());
            h.ok("minimum rows", cs.minimum_rows() == sh.blinding() + 3);
            let view = verif::cs_view(&cs);
            let (qa, qf, qi) = sh.queries();
            let set = |v: &[(usize, i32)]| v.iter().copied().collect::<BTreeSet<_>>();
            h.ok("advice queries", set(&view.advice_queries) == set(&qa) && view.advice_queries.len() == qa.len());
            let qf: Vec<(usize, i32)> = qf.into_iter().map(|c| (c, 0)).collect();
            h.ok("fixed queries", set(&view.fixed_queries) == set(&qf) && view.fixed_queries.len() == qf.len());
            h.ok("instance queries", set(&view.instance_queries) == set(&qi) && view.instance_queries.len() == qi.len());
            h.ok("permutation columns", view.permutation.iter().map(col_of).collect::<Vec<_>>() == sh.permutation());
            h.ok("counts", view.num_advice == sh.na && view.num_fixed == sh.nf + sh.tables && view.num_instance == sh.ni && view.num_selectors == sh.sel.len());
            // every query in a gate names the entry of the query list it claims
            let mut adv: HashMap<(usize, i32), Fp> = HashMap::new();
            let mut ins: HashMap<(usize, i32), Fp> = HashMap::new();
            let mut fx: Vec<Fp> = vec![];
            let mut sl: Vec<Fp> = vec![];
            for c in 0..sh.na {
                for r in -2..=2 {
                    adv.insert((c, r), h.fp(&format!("a{}_{}", c, r)));
                }
            }
            for c in 0..sh.ni {
                for r in -2..=2 {
                    ins.insert((c, r), h.fp(&format!("i{}_{}", c, r)));
                }
            }
            for c in 0..sh.nf + sh.tables {
                fx.push(h.fp(&format!("f{}", c)));
            }
            for c in 0..sh.sel.len() {
                sl.push(h.fp(&format!("s{}", c)));
            }
            let bad = std::cell::Cell::new(0);
            let lib = |e: &Expression<Fp>| -> Fp {
                e.evaluate(
                    &|c| c,
                    &|q| sl[verif_selector_index(&q)],
                    &|q| {
                        let (i, c, r) = verif::fixed_query(q);
                        if view.fixed_queries.get(i) != Some(&(c, r)) {
                            bad.set(bad.get() + 1);
                        }
                        fx[c]
                    },
                    &|q| {
                        let (i, c, r) = verif::advice_query(q);
                        if view.advice_queries.get(i) != Some(&(c, r)) {
                            bad.set(bad.get() + 1);
                        }
                        adv[&(c, r)]
                    },
                    &|q| {
                        let (i, c, r) = verif::instance_query(q);
                        if view.instance_queries.get(i) != Some(&(c, r)) {
                            bad.set(bad.get() + 1);
                        }
                        ins[&(c, r)]
                    },
                    &|a| -a,
                    &|a, b| a + b,
                    &|a, b| a * b,
                    &|a, k| a * k,
                )
            };
            let own = |e: &E| {
                e.eval(&|l| match l {
                    E::A(c, q) => adv[&(*c, *q)],
                    E::I(c, q) => ins[&(*c, *q)],
                    E::F(c) => fx[*c],
                    E::S(q) => sl[*q],
                    _ => unreachable!(),
                })
            };
            for (g, (_, ps)) in sh.gates.iter().zip(verif::gates(&cs)) {
                h.ok("polynomials of a gate", g.len() == ps.len());
                for (e, x) in g.iter().zip(ps) {
                    h.eq("gate value", lib(&x), own(e));
                    h.ok("gate degree", x.degree() == e.degree());
                    h.eq("square", lib(&x.clone().square_unless_selector(&sh, e)), if selector_of(e, &sh.sel).is_some() { own(e) } else { own(e) * own(e) });
                }
            }
            for (l, (i, tb)) in sh.lookups.iter().zip(verif::lookups(&cs)) {
                for (k, (e, t)) in l.iter().enumerate() {
                    h.eq("lookup input", lib(&i[k]), own(e));
                    h.eq("lookup table", lib(&tb[k]), fx[sh.nf + t]);
                }
            }
            h.ok("queries refer to the query lists", bad.get() == 0);
        });
    }
    cx.run("constraints with a common selector", |h| {
        let mut cs = ConstraintSystem::<Fp>::default();
        let a: Vec<_> = (0..3).map(|_| cs.advice_column()).collect();
        let s = cs.selector();
        cs.create_gate("g", |m| {
            let q: Vec<_> = a.iter().map(|c| m.query_advice(*c, halo2_proofs::poly::Rotation::cur())).collect();
            let s = m.query_selector(s);
            Constraints::with_selector(s, vec![("x", q[0].clone() * q[1].clone()), ("y", q[2].clone() - q[0].clone())])
        });
        let v = h.fps("v", 3);
        let sv = h.fp("s");
        let gates = verif::gates(&cs);
        let ps = &gates[0].1;
        let val = |e: &Expression<Fp>| e.evaluate(&|c| c, &|_| sv, &|_| panic!(), &|q| v[verif::advice_query(q).1], &|_| panic!(), &|a| -a, &|a, b| a + b, &|a, b| a * b, &|a, k| a * k);
        h.eq("first", val(&ps[0]), sv * v[0] * v[1]);
        h.eq("second", val(&ps[1]), sv * (v[2] - v[0]));
    });
}
trait Sq {
    fn square_unless_selector(self, sh: &Shape, e: &E) -> Self;
}
impl Sq for Expression<Fp> {
    fn square_unless_selector(self, sh: &Shape, e: &E) -> Self {
        if selector_of(e, &sh.sel).is_some() {
            self
        } else {
            self.square()
        }
    }
}
fn verif_selector_index(s: &Selector) -> usize {
    verif::selector_index(s)
}
