//! P10 verifier equation, P11 completeness, P13 Fiat-Shamir ordering and the key material (P16).
use super::pcs::*;
use super::shapes::*;
use super::symt::*;
use super::util::*;
use crate::core::*;
use crate::symgroup::{G, GA};
use ff::{Field, WithSmallOrderMulGroup};
use group::Group;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Blind, Guard, Params, MSM};
use halo2_proofs::verif::{self, CsView};
use pasta_curves::sym;
use pasta_curves::Fp;
use ff::PrimeField;

pub struct Capture<'a>(pub MSM<'a, GA>);
impl<'a> VerificationStrategy<'a, GA> for Capture<'a> {
    type Output = MSM<'a, GA>;
    fn process<E: halo2_proofs::transcript::EncodedChallenge<GA>>(
        self,
        f: impl FnOnce(MSM<'a, GA>) -> Result<Guard<'a, GA, E>, Error>,
    ) -> Result<Self::Output, Error> {
        Ok(f(self.0)?.use_challenges())
    }
}

/// own interpretation of a (selector-free) library expression
pub fn eval_expr(e: &Expression<Fp>, adv: &dyn Fn(usize, i32) -> Fp, fix: &dyn Fn(usize) -> Fp, ins: &dyn Fn(usize, i32) -> Fp) -> Fp {
    match e {
        Expression::Constant(c) => *c,
        Expression::Selector(_) => panic!("selector"),
        Expression::Fixed(q) => {
            let (_, c, r) = verif::fixed_query(*q);
            assert_eq!(r, 0);
            fix(c)
        }
        Expression::Advice(q) => {
            let (_, c, r) = verif::advice_query(*q);
            adv(c, r)
        }
        Expression::Instance(q) => {
            let (_, c, r) = verif::instance_query(*q);
            ins(c, r)
        }
        Expression::Negated(a) => -eval_expr(a, adv, fix, ins),
        Expression::Sum(a, b) => eval_expr(a, adv, fix, ins) + eval_expr(b, adv, fix, ins),
        Expression::Product(a, b) => eval_expr(a, adv, fix, ins) * eval_expr(b, adv, fix, ins),
        Expression::Scaled(a, k) => eval_expr(a, adv, fix, ins) * *k,
    }
}
pub fn col_of(c: &Column<Any>) -> Col {
    match c.column_type() {
        Any::Advice => Col::A(verif::column_index(*c)),
        Any::Fixed => Col::F(verif::column_index(*c)),
        Any::Instance => Col::I(verif::column_index(*c)),
    }
}

/// Everything public about a circuit that the protocol description refers to.
pub struct Pub {
    pub k: u32,
    pub view: CsView,
    pub gates: Vec<Expression<Fp>>,
    pub lookups: Vec<(Vec<Expression<Fp>>, Vec<Expression<Fp>>)>,
    pub perm: Vec<Col>,
    pub degree: usize,
    pub bf: usize,
    pub fixed_c: Vec<GA>,
    pub perm_c: Vec<GA>,
}
impl Pub {
    pub fn new(sh: &Shape, vk: &VerifyingKey<GA>) -> Pub {
        let cs = verif::vk_cs(vk);
        let view = verif::cs_view(cs);
        let (fixed_c, perm_c) = verif::vk_commitments(vk);
        Pub {
            k: sh.k,
            gates: verif::gates(cs).into_iter().flat_map(|g| g.1).collect(),
            lookups: verif::lookups(cs),
            perm: view.permutation.iter().map(col_of).collect(),
            degree: sh.degree(),
            bf: sh.blinding(),
            view,
            fixed_c,
            perm_c,
        }
    }
    pub fn chunk(&self) -> usize {
        self.degree - 2
    }
    pub fn sets(&self) -> usize {
        (self.perm.len() + self.chunk() - 1) / self.chunk()
    }
}

/// The proof's parts, filled by reading the item list in protocol order.
#[derive(Default, Clone)]
pub struct Parts {
    pub advice: Vec<Vec<G>>,
    pub permuted: Vec<Vec<(G, G)>>,
    pub perm_z: Vec<Vec<G>>,
    pub look_z: Vec<Vec<G>>,
    pub random: Option<G>,
    pub hs: Vec<G>,
    pub ie: Vec<Vec<Fp>>,
    pub ae: Vec<Vec<Fp>>,
    pub fe: Vec<Fp>,
    pub re: Fp,
    pub se: Vec<Fp>,
    pub pe: Vec<Vec<(Fp, Fp, Option<Fp>)>>,
    pub le: Vec<Vec<[Fp; 5]>>,
    pub rest: Vec<Item>,
    /// p(oint)/s(calar)/c(hallenge) sequence up to the openings
    pub pattern: String,
}
pub trait Source {
    fn p(&mut self) -> G;
    fn s(&mut self) -> Fp;
}
pub struct FromItems<'a>(pub &'a [Item], pub usize);
impl<'a> Source for FromItems<'a> {
    fn p(&mut self) -> G {
        self.1 += 1;
        match self.0.get(self.1 - 1) {
            Some(Item::P(p)) => (*p).into(),
            x => panic!("proof item {}: point expected, got {:?}", self.1 - 1, x),
        }
    }
    fn s(&mut self) -> Fp {
        self.1 += 1;
        match self.0.get(self.1 - 1) {
            Some(Item::S(s)) => *s,
            x => panic!("proof item {}: scalar expected, got {:?}", self.1 - 1, x),
        }
    }
}
/// makes symbolic items
pub struct Fresh<'a> {
    h: &'a mut H,
    items: Vec<Item>,
    konst_scalars: bool,
}
impl<'a> Source for Fresh<'a> {
    fn p(&mut self) -> G {
        let g = self.h.gen(&format!("pi{}", self.items.len()));
        self.items.push(Item::P(g.into()));
        g
    }
    fn s(&mut self) -> Fp {
        let n = format!("e{}", self.items.len());
        let s = if self.konst_scalars { self.h.konst(&n) } else { self.h.fp(&n) };
        self.items.push(Item::S(s));
        s
    }
}
/// Protocol order of the proof (everything before the multi-point opening).
pub fn read_parts(p: &Pub, np: usize, src: &mut dyn Source) -> Parts {
    let mut o = Parts { pattern: String::from("s"), ..Default::default() };
    let mut pt = String::new();
    macro_rules! pts {
        ($n:expr) => {{
            (0..$n)
                .map(|_| {
                    pt.push('P');
                    src.p()
                })
                .collect::<Vec<G>>()
        }};
    }
    for _ in 0..np * p.view.num_instance {
        o.pattern.push('p');
    }
    for _ in 0..np {
        o.advice.push(pts!(p.view.num_advice));
    }
    pt.push('c');
    for _ in 0..np {
        let v = p.lookups.iter().map(|_| { let v = pts!(2); (v[0], v[1]) }).collect();
        o.permuted.push(v);
    }
    pt.push_str("cc");
    for _ in 0..np {
        o.perm_z.push(pts!(p.sets()));
    }
    for _ in 0..np {
        o.look_z.push(pts!(p.lookups.len()));
    }
    o.random = Some(pts!(1)[0]);
    pt.push('c');
    o.hs = pts!(p.degree - 1);
    pt.push('c');
    macro_rules! sc {
        ($n:expr) => {{
            (0..$n)
                .map(|_| {
                    pt.push('S');
                    src.s()
                })
                .collect::<Vec<Fp>>()
        }};
    }
    for _ in 0..np {
        o.ie.push(sc!(p.view.instance_queries.len()));
    }
    for _ in 0..np {
        o.ae.push(sc!(p.view.advice_queries.len()));
    }
    o.fe = sc!(p.view.fixed_queries.len());
    o.re = sc!(1)[0];
    o.se = sc!(p.perm.len());
    for _ in 0..np {
        let n = p.sets();
        let v = (0..n)
            .map(|i| {
                let v = sc!(if i + 1 < n { 3 } else { 2 });
                (v[0], v[1], v.get(2).copied())
            })
            .collect();
        o.pe.push(v);
    }
    for _ in 0..np {
        let v = p.lookups.iter().map(|_| { let v = sc!(5); [v[0], v[1], v[2], v[3], v[4]] }).collect();
        o.le.push(v);
    }
    o.pattern += &pt;
    o
}

/// The constraint expressions of one proof at the evaluation point, in protocol order.
pub fn expressions(p: &Pub, o: &Parts, j: usize, ch: &[Fp]) -> Vec<Fp> {
    let (theta, beta, gamma, x) = (ch[0], ch[1], ch[2], ch[4]);
    let n = 1u64 << p.k;
    let xn = pw2(x, p.k);
    // l_i(x) = (x^n - 1) w^i / (n (x - w^i))
    let l = |i: i64| (xn - Fp::one()) * wpow(p.k, i) * inv(Fp::from(n) * (x - wpow(p.k, i)));
    let l0 = l(0);
    let last = l(-(p.bf as i64) - 1);
    let blind = sum((1..=p.bf as i64).map(|i| l(-i)));
    let active = Fp::one() - (last + blind);
    let adv = |c: usize, r: i32| o.ae[j][p.view.advice_queries.iter().position(|q| *q == (c, r)).expect("advice query")];
    let fix = |c: usize| o.fe[p.view.fixed_queries.iter().position(|q| *q == (c, 0)).expect("fixed query")];
    let ins = |c: usize, r: i32| o.ie[j][p.view.instance_queries.iter().position(|q| *q == (c, r)).expect("instance query")];
    let val = |c: &Col| match c {
        Col::A(i) => adv(*i, 0),
        Col::F(i) => fix(*i),
        Col::I(i) => ins(*i, 0),
    };
    let mut e: Vec<Fp> = p.gates.iter().map(|g| eval_expr(g, &adv, &fix, &ins)).collect();
    let z = &o.pe[j];
    if let Some(f) = z.first() {
        e.push(l0 * (Fp::one() - f.0));
        let q = z.last().unwrap().0;
        e.push(last * (q * q - q));
        for i in 1..z.len() {
            e.push(l0 * (z[i].0 - z[i - 1].2.unwrap()));
        }
        for i in 0..z.len() {
            let (mut lhs, mut rhs) = (z[i].1, z[i].0);
            for c in i * p.chunk()..((i + 1) * p.chunk()).min(p.perm.len()) {
                let v = val(&p.perm[c]);
                lhs = lhs * (v + beta * o.se[c] + gamma);
                rhs = rhs * (v + beta * Fp::DELTA.pow_vartime([c as u64]) * x + gamma);
            }
            e.push((lhs - rhs) * active);
        }
    }
    for (li, (inp, tab)) in p.lookups.iter().enumerate() {
        let [z, zn, a, ai, s] = o.le[j][li];
        let comp = |v: &Vec<Expression<Fp>>| v.iter().fold(Fp::zero(), |acc, x| acc * theta + eval_expr(x, &adv, &fix, &ins));
        e.push(l0 * (Fp::one() - z));
        e.push(last * (z * z - z));
        e.push((zn * (a + beta) * (s + gamma) - z * (comp(inp) + beta) * (comp(tab) + gamma)) * active);
        e.push(l0 * (a - s));
        e.push((a - s) * (a - ai) * active);
    }
    e
}
pub fn pw2(x: Fp, k: u32) -> Fp {
    (0..k).fold(x, |a, _| a * a)
}

/// The final combination the verifier must test, from the protocol description alone.
pub fn plonk_spec(h: &mut H, p: &Pub, o: &Parts, inst: &[Vec<Vec<Fp>>], ch: &[Fp]) -> G {
    let np = inst.len();
    let n = 1usize << p.k;
    let (y, x) = (ch[3], ch[4]);
    let xn = pw2(x, p.k);
    let mut acc = Fp::zero();
    for j in 0..np {
        for e in expressions(p, o, j, ch) {
            acc = acc * y + e;
        }
    }
    let expected_h = acc * inv(xn - Fp::one());
    let mut hc = G::identity();
    for c in o.hs.iter().rev() {
        hc = hc * xn + *c;
    }
    // instance commitments: interpolation of the zero-padded column, blind 1
    let mut coms: Vec<G> = vec![];
    let mut q: Vec<(usize, i64, Fp)> = vec![];
    for j in 0..np {
        let base = coms.len();
        for c in 0..p.view.num_instance {
            let mut v = inst[j][c].clone();
            v.resize(n, Fp::zero());
            let g = com(h, &idft(&v, p.k), Fp::one());
            coms.push(g);
        }
        for (qi, (c, r)) in p.view.instance_queries.iter().enumerate() {
            q.push((base + c, *r as i64, o.ie[j][qi]));
        }
        let base = coms.len();
        coms.extend(o.advice[j].iter().copied());
        for (qi, (c, r)) in p.view.advice_queries.iter().enumerate() {
            q.push((base + c, *r as i64, o.ae[j][qi]));
        }
        let base = coms.len();
        coms.extend(o.perm_z[j].iter().copied());
        for (i, z) in o.pe[j].iter().enumerate() {
            q.push((base + i, 0, z.0));
            q.push((base + i, 1, z.1));
        }
        for (i, z) in o.pe[j].iter().enumerate().rev().skip(1) {
            q.push((base + i, -(p.bf as i64) - 1, z.2.unwrap()));
        }
        for li in 0..p.lookups.len() {
            let b = coms.len();
            coms.extend([o.look_z[j][li], o.permuted[j][li].0, o.permuted[j][li].1]);
            let [z, zn, a, ai, s] = o.le[j][li];
            q.extend([(b, 0, z), (b + 1, 0, a), (b + 2, 0, s), (b + 1, -1, ai), (b, 1, zn)]);
        }
    }
    let base = coms.len();
    coms.extend(p.fixed_c.iter().map(|c| G::from(*c)));
    for (qi, (c, r)) in p.view.fixed_queries.iter().enumerate() {
        q.push((base + c, *r as i64, o.fe[qi]));
    }
    for (i, c) in p.perm_c.iter().enumerate() {
        coms.push((*c).into());
        q.push((coms.len() - 1, 0, o.se[i]));
    }
    coms.push(hc);
    q.push((coms.len() - 1, 0, expected_h));
    coms.push(o.random.unwrap());
    q.push((coms.len() - 1, 0, o.re));
    // distinct points by rotation
    let nn = n as i64;
    let mut rots: Vec<i64> = vec![];
    let pairs: Vec<(usize, usize)> = q
        .iter()
        .map(|(c, r, _)| {
            let r = r.rem_euclid(nn);
            let i = rots.iter().position(|x| *x == r).unwrap_or_else(|| {
                rots.push(r);
                rots.len() - 1
            });
            (*c, i)
        })
        .collect();
    let sets: Vec<_> = grouping(&pairs)
        .iter()
        .map(|s| {
            let pts: Vec<Fp> = s.points.iter().map(|i| x * wpow(p.k, rots[*i])).collect();
            let cs: Vec<(G, Vec<Fp>)> = s
                .coms
                .iter()
                .map(|c| (coms[*c], s.points.iter().map(|i| q[pairs.iter().position(|z| *z == (*c, *i)).unwrap()].2).collect()))
                .collect();
            (pts, cs)
        })
        .collect();
    multiopen_spec(h, &sets, &o.rest, &ch[5..], p.k as usize, G::identity())
}
pub fn n_sets(p: &Pub, np: usize) -> usize {
    // number of distinct point sets, through a throw-away run of the grouping
    let mut q: Vec<(usize, i64)> = vec![];
    let mut b = 0;
    for _ in 0..np {
        for (c, r) in &p.view.instance_queries {
            q.push((b + c, *r as i64));
        }
        b += p.view.num_instance;
        for (c, r) in &p.view.advice_queries {
            q.push((b + c, *r as i64));
        }
        b += p.view.num_advice;
        for i in 0..p.sets() {
            q.push((b + i, 0));
            q.push((b + i, 1));
        }
        for i in (0..p.sets()).rev().skip(1) {
            q.push((b + i, -(p.bf as i64) - 1));
        }
        b += p.sets();
        for _ in 0..p.lookups.len() {
            q.extend([(b, 0), (b + 1, 0), (b + 2, 0), (b + 1, -1), (b, 1)]);
            b += 3;
        }
    }
    q.push((b, 0));
    let n = 1i64 << p.k;
    let mut rots = vec![];
    let pairs: Vec<(usize, usize)> = q
        .iter()
        .map(|(c, r)| {
            let r = r.rem_euclid(n);
            let i = rots.iter().position(|x| *x == r).unwrap_or_else(|| {
                rots.push(r);
                rots.len() - 1
            });
            (*c, i)
        })
        .collect();
    grouping(&pairs).len()
}
pub fn log_pattern(log: &[Ev]) -> String {
    log.iter()
        .map(|e| match e {
            Ev::Proof(Item::P(_)) => 'P',
            Ev::Proof(Item::S(_)) => 'S',
            Ev::Common(Item::P(_)) => 'p',
            Ev::Common(Item::S(_)) => 's',
            Ev::Challenge(_) => 'c',
        })
        .collect()
}
pub fn opening_pattern(sets: usize, k: usize) -> String {
    format!("ccPc{}cPcc{}SS", "S".repeat(sets), "PPc".repeat(k))
}
pub fn insts(h: &mut H, sh: &Shape, np: usize, symbolic: bool) -> Vec<Vec<Vec<Fp>>> {
    (0..np)
        .map(|j| {
            (0..sh.ni)
                .map(|c| {
                    // different lengths, the longest filling every usable row
                    let len = if c == 0 { sh.usable() } else { 1 };
                    (0..len)
                        .map(|r| {
                            let n = format!("inst{}_{}_{}", j, c, r);
                            if symbolic {
                                h.fp(&n)
                            } else {
                                h.konst(&n)
                            }
                        })
                        .collect()
                })
                .collect()
        })
        .collect()
}
pub fn as_refs(i: &[Vec<Vec<Fp>>]) -> Vec<Vec<&[Fp]>> {
    i.iter().map(|x| x.iter().map(|c| &c[..]).collect()).collect()
}

pub fn p10(cx: &mut Cx) {
    cx.functions(&[
        "plonk::verify_proof", "permutation::verifier::{expressions,queries}", "lookup::verifier::{expressions,queries}",
        "vanishing::verifier::verify", "multiopen::verify_proof", "commitment::verify_proof", "VerifyingKey::hash_into", "EvaluationDomain::l_i_range",
    ]);
    let deep = tier_thorough();
    for sh in shapes() {
        for np in if deep { vec![1usize, 2] } else if ["plonk", "lookup", "deg6"].contains(&sh.name) { vec![1, 2] } else { vec![1] } {
            for part in if deep { vec!["all", "values", "points"] } else { vec!["all"] } {
                cx.run(&format!("{}/proofs{}/{}", sh.name, np, part), |h| {
                    h.policy = PcPolicy::Path;
                    set_shape(&sh);
                    let params = Params::<GA>::new(sh.k);
                    let vk = keygen_vk(&params, &Circ).unwrap();
                    let p = Pub::new(&sh, &vk);
                    let vals = part != "points";
                    let inst = insts(h, &sh, np, vals);
                    // theta beta gamma y x | x1 x2 x3 x4 | xi z | u...
                    let mut ch: Vec<Fp> = vec![];
                    for n in ["theta", "beta", "gamma", "y", "x", "x1", "x2", "x3", "x4", "xi", "z"] {
                        let point = n == "x" || n == "x3";
                        ch.push(if part == "all" || point != vals { h.fp(n) } else { h.konst(n) });
                    }
                    for j in 0..sh.k {
                        let n = format!("u{}", j);
                        ch.push(if vals { h.fp(&n) } else { h.konst(&n) });
                    }
                    let mut fr = Fresh { h, items: vec![], konst_scalars: !vals };
                    let mut o = read_parts(&p, np, &mut fr);
                    let ns = n_sets(&p, np);
                    let start = fr.items.len();
                    fr.p();
                    for _ in 0..ns {
                        fr.s();
                    }
                    fr.p();
                    for _ in 0..2 * sh.k {
                        fr.p();
                    }
                    fr.s();
                    fr.s();
                    let items = fr.items;
                    o.rest = items[start..].to_vec();
                    let refs = as_refs(&inst);
                    let refs: Vec<&[&[Fp]]> = refs.iter().map(|x| &x[..]).collect();
                    let mut rd = SymT::reader(&ch, &items);
                    let got = verify_proof(&params, &vk, Capture(params.empty_msm()), &refs, &mut rd).expect("well-formed");
                    let want = plonk_spec(h, &p, &o, &inst, &ch);
                    h.geq("final equation", msm_point(got), want);
                    h.ok("whole proof read", rd.pos == items.len());
                    h.ok(
                        &format!("transcript order {} vs {}{}", log_pattern(&rd.log), o.pattern, opening_pattern(ns, sh.k as usize)),
                        log_pattern(&rd.log) == format!("{}{}", o.pattern, opening_pattern(ns, sh.k as usize)),
                    );
                });
            }
        }
    }
    cx.witness("gate ignored", |h| {
        h.policy = PcPolicy::Path;
        let mut sh = shapes().remove(1);
        set_shape(&sh);
        let params = Params::<GA>::new(sh.k);
        let vk = keygen_vk(&params, &Circ).unwrap();
        sh.gates = vec![];
        let mut p = Pub::new(&sh, &vk);
        p.degree = 3;
        p.gates = vec![];
        let ch = h.fps("ch", 11 + sh.k as usize);
        let mut fr = Fresh { h, items: vec![], konst_scalars: false };
        let mut o = read_parts(&p, 1, &mut fr);
        let ns = n_sets(&p, 1);
        let start = fr.items.len();
        fr.p();
        (0..ns).for_each(|_| {
            fr.s();
        });
        (0..1 + 2 * sh.k).for_each(|_| {
            fr.p();
        });
        fr.s();
        fr.s();
        let items = fr.items;
        o.rest = items[start..].to_vec();
        let mut rd = SymT::reader(&ch, &items);
        let refs: Vec<&[Fp]> = vec![];
        let got = verify_proof(&params, &vk, Capture(params.empty_msm()), &[&refs[..]], &mut rd).expect("well-formed");
        let want = plonk_spec(h, &p, &o, &[vec![]], &ch);
        h.geq("final equation", msm_point(got), want);
    });
}

/// honest assignments of the shapes, with free values taken from `v`
pub fn honest(sh: &Shape, v: &mut dyn FnMut(&str) -> Fp) -> (Wit, Vec<Vec<Fp>>) {
    let mut w: Wit = vec![];
    let mut inst: Vec<Vec<Fp>> = vec![vec![]; sh.ni];
    let n = |x: u64| Fp::from(x);
    macro_rules! put {
        ($c:expr, $r:expr, $v:expr) => {
            w.push(($c, $r, Assigned::from($v)))
        };
    }
    match sh.name {
        "empty" => {}
        "bool" => {
            w.push((0, 0, Assigned::Rational(n(7), n(7))));
            w.push((0, 1, Assigned::Rational(n(7), n(0))));
        }
        "plonk" => {
            let (a, b, i0, i1) = (v("a"), v("b"), v("i0"), v("i1"));
            inst[0] = vec![i0, i1];
            put!(0, 0, a);
            put!(1, 0, b);
            let c = a * b - i0;
            put!(2, 0, c);
            put!(0, 1, c);
            put!(1, 1, b);
            let half = inv(n(2));
            w.push((2, 1, Assigned::Rational((c + c + b * half - i1) * n(3), n(3))));
        }
        "rot" => {
            let (a, b) = (v("a"), v("b"));
            let mut x = vec![v("x0"), a, b];
            x.push(a + b);
            x.push(x[2] + x[3]);
            for (r, x) in x.iter().enumerate() {
                put!(0, r, *x);
            }
            put!(1, 1, x[0]);
            put!(1, 2, x[1]);
            let y = v("y3");
            put!(1, 3, y);
            let third = inv(n(3));
            inst[0] = vec![n(1), n(2), x[0] * y * third];
        }
        "lookup" => {
            put!(0, 0, n(0));
            put!(0, 1, n(7));
            put!(0, 2, v("junk"));
        }
        "lookup2" => {
            for (r, x) in [3u64, 16, 4].iter().enumerate() {
                put!(0, r, n(*x));
            }
            for (r, x) in [9u64, 1, 16, 9].iter().enumerate() {
                put!(1, r, n(*x));
            }
            put!(0, 5, v("junk"));
        }
        "wideperm" => {
            let (x, y) = (v("x"), v("y"));
            put!(3, 0, x);
            put!(0, 1, x);
            inst[0] = vec![v("i0"), x];
            put!(2, 1, n(6));
            put!(2, 0, v("j0"));
            put!(0, 0, y);
            put!(1, 0, y);
            put!(3, 1, v("j1"));
        }
        "chunks" => {
            let (x, y) = (v("x"), v("y"));
            put!(0, 0, x);
            put!(3, 1, x);
            put!(1, 0, n(11));
            put!(2, 0, n(11));
            put!(2, 1, y);
            put!(3, 0, y);
            put!(1, 1, v("j"));
        }
        "deg6" => {
            let (x, t) = (v("x"), v("t"));
            put!(0, 0, x);
            put!(1, 0, t);
            inst[0] = vec![t, v("i")];
            inst[1] = vec![x * x * x * x * t];
            put!(1, 1, v("j"));
        }
        _ => unreachable!(),
    }
    (w, inst)
}
pub const CH: [&str; 11] = ["theta", "beta", "gamma", "y", "x", "x1", "x2", "x3", "x4", "xi", "z"];
pub fn challenges(h: &mut H, k: u32, symbolic: &dyn Fn(&str) -> bool) -> Vec<Fp> {
    let mut names: Vec<String> = CH.iter().map(|s| s.to_string()).collect();
    names.extend((0..k).map(|i| format!("u{}", i)));
    names.iter().map(|n| if symbolic(n) { h.fp(n) } else { h.konst(n) }).collect()
}

/// One symbolic quantity at a time in the rational part of the protocol.
fn p11_end_to_end(cx: &mut Cx) {
    let which = std::env::var("HV_ONLY").unwrap_or_default();
    for sh in shapes() {
        if !which.is_empty() && !which.contains(sh.name) {
            continue;
        }
        let mut modes: Vec<(String, usize)> = vec![];
        let np = if ["plonk", "deg6"].contains(&sh.name) { 2 } else { 1 };
        for m in ["none", "y", "x", "x1", "x2", "x3", "x4", "ipa"] {
            modes.push((m.into(), np));
        }
        for (mode, np) in modes {
            cx.run(&format!("{}/{}", sh.name, mode), |h| {
                h.policy = PcPolicy::Path;
                set_shape(&sh);
                let params = Params::<GA>::new(sh.k);
                let vk = keygen_vk(&params, &Circ).unwrap();
                let pk = keygen_pk(&params, vk.clone(), &Circ).unwrap();
                let ch = challenges(h, sh.k, &|n| n == mode || (mode == "ipa" && (n == "xi" || n == "z" || n.starts_with('u'))));
                let mut wits = vec![];
                let mut inst = vec![];
                for j in 0..np {
                    let (w, i) = honest(&sh, &mut |n| {
                        let n = format!("w{}{}", j, n);
                        if mode == n {
                            h.fp(&n)
                        } else {
                            h.konst(&n)
                        }
                    });
                    wits.push(w);
                    inst.push(i);
                }
                set_wits(wits);
                let refs = as_refs(&inst);
                let refs: Vec<&[&[Fp]]> = refs.iter().map(|x| &x[..]).collect();
                let mut tr = SymT::new(&ch);
                sym::set_random_symbolic(mode == "rng");
                create_proof(&params, &pk, &vec![Circ; np], &refs, Rng(seed()), &mut tr).expect("honest proof");
                sym::set_random_symbolic(false);
                let proof = tr.proof();
                let mut rd = SymT::reader(&ch, &proof);
                let m = verify_proof(&params, &vk, Capture(params.empty_msm()), &refs, &mut rd).expect("well-formed");
                h.geq("accepted", msm_point(m), G::identity());
                h.ok("whole proof read", rd.pos == proof.len() && rd.nch == tr.nch);
            });
        }
    }
}

/// coefficients and blinding factor behind a commitment
pub fn opened(h: &mut H, g: G, k: u32) -> (Vec<Fp>, Fp) {
    let cs = g.coeffs();
    let mut at = |g: G| {
        let id = *g.coeffs().keys().next().expect("generator");
        cs.get(&id).copied().unwrap_or(Fp::zero())
    };
    let gs: Vec<G> = (0..1u32 << k).map(|i| gen_g(h, i)).collect();
    let w = gen_w(h);
    (gs.into_iter().map(|g| at(g)).collect(), at(w))
}
/// next degree for which the quotient fills the extended domain
pub fn full_degree(sh: &Shape) -> Shape {
    let mut s = sh.clone();
    s.min_degree = Some((s.degree() - 1).next_power_of_two() + 1);
    s
}
pub struct Run {
    pub p: Pub,
    pub vk: VerifyingKey<GA>,
    pub ch: Vec<Fp>,
    pub parts: Parts,
    pub inst: Vec<Vec<Vec<Fp>>>,
    pub wits: Vec<Wit>,
    pub tr: SymT,
}
/// The real prover on an honest witness, stopped before the multi-point opening.
pub fn prove_until_openings(h: &mut H, sh: &Shape, np: usize, symbolic: &dyn Fn(&str) -> bool) -> Run {
    h.policy = PcPolicy::Path;
    set_shape(sh);
    let params = Params::<GA>::new(sh.k);
    let vk = keygen_vk(&params, &Circ).unwrap();
    let pk = keygen_pk(&params, vk.clone(), &Circ).unwrap();
    let ch = challenges(h, sh.k, symbolic);
    let (mut wits, mut inst) = (vec![], vec![]);
    for j in 0..np {
        let (w, i) = honest(sh, &mut |n| {
            let n = format!("w{}{}", j, n);
            if symbolic("w") {
                h.fp(&n)
            } else {
                h.konst(&n)
            }
        });
        wits.push(w);
        inst.push(i);
    }
    set_wits(wits.clone());
    let mut tr = SymT::new(&ch);
    tr.limit = 6;
    {
        let refs = as_refs(&inst);
        let refs: Vec<&[&[Fp]]> = refs.iter().map(|x| &x[..]).collect();
        sym::set_random_symbolic(symbolic("rng"));
        let r = create_proof(&params, &pk, &vec![Circ; np], &refs, Rng(seed()), &mut tr);
        sym::set_random_symbolic(false);
        assert!(r.is_err() && tr.nch >= 6, "the prover reaches the openings: {:?} after {} challenges", r, tr.nch);
    }
    let p = Pub::new(sh, &vk);
    let items = tr.proof();
    let mut src = FromItems(&items, 0);
    let parts = read_parts(&p, np, &mut src);
    Run { p, vk, ch, parts, inst, wits, tr }
}

/// What the committed polynomials of an honest proof must satisfy, row by row.
fn p11_relations(cx: &mut Cx) {
    for sh in shapes() {
        let sh = full_degree(&sh);
        let np = if sh.name == "plonk" { 2 } else { 1 };
        for mode in ["all", "x"] {
            cx.run(&format!("relations/{}/{}", sh.name, mode), |h| {
                let sy = |n: &str| if mode == "all" { ["w", "rng", "theta", "beta", "gamma", "y"].contains(&n) } else { n == "x" || n == "w" };
                let r = prove_until_openings(h, &sh, np, &sy);
                let (p, o, ch) = (&r.p, &r.parts, &r.ch);
                let (theta, beta, gamma, y, x) = (ch[0], ch[1], ch[2], ch[3], ch[4]);
                let n = 1usize << sh.k;
                let us = sh.usable();
                let sigma: Vec<Vec<Fp>> = p.perm_c.clone().into_iter().map(|c| opened(h, c.into(), sh.k).0).collect();
                let rows = |c: &[Fp]| -> Vec<Fp> { (0..n).map(|i| ev(c, wpow(sh.k, i as i64))).collect() };
                let sigma_rows: Vec<Vec<Fp>> = sigma.iter().map(|c| rows(c)).collect();
                let fixed_polys: Vec<Vec<Fp>> = p.fixed_c.clone().into_iter().map(|c| opened(h, c.into(), sh.k).0).collect();
                let fixed: Vec<Vec<Fp>> = fixed_polys.iter().map(|c| rows(c)).collect();
                // coset of the extended domain
                let mut ek = sh.k;
                while (1usize << ek) < n * (p.degree - 1) {
                    ek += 1;
                }
                let pts: Vec<Fp> = (0..if mode == "all" { 1usize << ek } else { 0 }).map(|i| Fp::ZETA * wpow(ek, i as i64)).collect();
                let mut folded = vec![Fp::zero(); pts.len()];
                for j in 0..np {
                    let adv: Vec<(Vec<Fp>, Fp)> = o.advice[j].clone().into_iter().map(|c| opened(h, c, sh.k)).collect();
                    let ins: Vec<Vec<Fp>> = r.inst[j]
                        .iter()
                        .map(|v| {
                            let mut v = v.clone();
                            v.resize(n, Fp::zero());
                            idft(&v, sh.k)
                        })
                        .collect();
                    let adv_rows: Vec<Vec<Fp>> = adv.iter().map(|a| rows(&a.0)).collect();
                    let mut want = vec![vec![Fp::zero(); us]; sh.na];
                    for (c, r, v) in &r.wits[j] {
                        want[*c][*r] = v.evaluate();
                    }
                    for c in 0..sh.na {
                        h.eqs(&format!("advice {}", c), &adv_rows[c][..us], &want[c]);
                    }
                    let cell = |c: &Col, i: usize| match c {
                        Col::A(c) => adv_rows[*c][i],
                        Col::F(c) => fixed[*c][i],
                        Col::I(c) => r.inst[j][*c].get(i).copied().unwrap_or(Fp::zero()),
                    };
                    // permutation products
                    let zs: Vec<Vec<Fp>> = o.perm_z[j].clone().into_iter().map(|c| opened(h, c, sh.k).0).collect();
                    let mut start = Fp::one();
                    if mode == "all" {
                        for (s, z) in zs.iter().enumerate() {
                            let zr = rows(z);
                            h.eq(&format!("permutation product {} start", s), zr[0], start);
                            for i in 0..us {
                                let (mut l, mut rr) = (zr[i + 1], zr[i]);
                                for c in s * p.chunk()..((s + 1) * p.chunk()).min(p.perm.len()) {
                                    let v = cell(&p.perm[c], i);
                                    l = l * (v + beta * sigma_rows[c][i] + gamma);
                                    rr = rr * (v + beta * Fp::DELTA.pow_vartime([c as u64]) * wpow(sh.k, i as i64) + gamma);
                                }
                                h.eq(&format!("permutation product {} row {}", s, i), l, rr);
                            }
                            start = zr[us];
                        }
                        h.eq("permutation product end", start, Fp::one());
                    }
                    // lookups
                    let mut lk: Vec<[Vec<Fp>; 3]> = vec![];
                    for (li, (inp, tab)) in p.lookups.iter().enumerate() {
                        let a = opened(h, o.permuted[j][li].0, sh.k).0;
                        let s = opened(h, o.permuted[j][li].1, sh.k).0;
                        let z = opened(h, o.look_z[j][li], sh.k).0;
                        let comp = |v: &Vec<Expression<Fp>>, i: usize| {
                            let at = |r: i32| ((i as i64 + r as i64).rem_euclid(n as i64)) as usize;
                            v.iter().fold(Fp::zero(), |acc, x| {
                                acc * theta + eval_expr(x, &|c, r| adv_rows[c][at(r)], &|c| fixed[c][i], &|c, r| cell(&Col::I(c), at(r)))
                            })
                        };
                        if mode == "all" {
                            let (ar, sr, zr) = (rows(&a), rows(&s), rows(&z));
                            h.eq("lookup product start", zr[0], Fp::one());
                            h.eq("lookup product end", zr[us], Fp::one());
                            for i in 0..us {
                                h.eq(
                                    &format!("lookup {} product row {}", li, i),
                                    zr[i + 1] * (ar[i] + beta) * (sr[i] + gamma),
                                    zr[i] * (comp(inp, i) + beta) * (comp(tab, i) + gamma),
                                );
                                // on this path: equal to the table cell, or to the row above
                                let same = i == 0 || ar[i].shadow() != ar[i - 1].shadow();
                                h.eq(&format!("lookup {} permuted row {}", li, i), ar[i], if same { sr[i] } else { ar[i - 1] });
                            }
                        }
                        lk.push([z, a, s]);
                    }
                    // evaluations
                    if mode == "x" {
                        let w = |r: i64| x * wpow(sh.k, r);
                        for (q, (c, r)) in p.view.instance_queries.iter().enumerate() {
                            h.eq("instance evaluation", o.ie[j][q], ev(&ins[*c], w(*r as i64)));
                        }
                        for (q, (c, r)) in p.view.advice_queries.iter().enumerate() {
                            h.eq("advice evaluation", o.ae[j][q], ev(&adv[*c].0, w(*r as i64)));
                        }
                        for (i, (e0, e1, e2)) in o.pe[j].iter().enumerate() {
                            h.eq("product evaluation", *e0, ev(&zs[i], x));
                            h.eq("product evaluation next", *e1, ev(&zs[i], w(1)));
                            if let Some(e2) = e2 {
                                h.eq("product evaluation last", *e2, ev(&zs[i], w(-(p.bf as i64) - 1)));
                            }
                        }
                        for (e, [z, a, s]) in o.le[j].iter().zip(lk.iter()) {
                            let want = [ev(z, x), ev(z, w(1)), ev(a, x), ev(a, w(-1)), ev(s, x)];
                            h.eqs("lookup evaluations", e, &want);
                        }
                    }
                    // the constraint expressions on the coset
                    for (t, pt) in pts.iter().enumerate() {
                        let w = |r: i64| *pt * wpow(sh.k, r);
                        let mut q = Parts::default();
                        q.ie = vec![p.view.instance_queries.iter().map(|(c, r)| ev(&ins[*c], w(*r as i64))).collect()];
                        q.ae = vec![p.view.advice_queries.iter().map(|(c, r)| ev(&adv[*c].0, w(*r as i64))).collect()];
                        q.fe = p.view.fixed_queries.iter().map(|(c, r)| ev(&fixed_polys[*c], w(*r as i64))).collect();
                        q.se = sigma.iter().map(|s| ev(s, *pt)).collect();
                        q.pe = vec![zs
                            .iter()
                            .enumerate()
                            .map(|(i, z)| (ev(z, *pt), ev(z, w(1)), if i + 1 < zs.len() { Some(ev(z, w(-(p.bf as i64) - 1))) } else { None }))
                            .collect()];
                        q.le = vec![lk.iter().map(|[z, a, s]| [ev(z, *pt), ev(z, w(1)), ev(a, *pt), ev(a, w(-1)), ev(s, *pt)]).collect()];
                        let mut c = ch.clone();
                        c[4] = *pt;
                        for e in expressions(p, &q, 0, &c) {
                            folded[t] = folded[t] * y + e;
                        }
                    }
                }
                let mut hp: Vec<Fp> = vec![];
                for c in o.hs.clone() {
                    hp.extend(opened(h, c, sh.k).0);
                }
                for (t, pt) in pts.iter().enumerate() {
                    h.eq(&format!("quotient at coset point {}", t), ev(&hp, *pt) * (pw2(*pt, sh.k) - Fp::one()), folded[t]);
                }
                if mode == "x" {
                    for (q, (c, r)) in p.view.fixed_queries.iter().enumerate() {
                        h.eq("fixed evaluation", o.fe[q], ev(&fixed_polys[*c], x * wpow(sh.k, *r as i64)));
                    }
                    for (i, s) in sigma.iter().enumerate() {
                        h.eq("permutation evaluation", o.se[i], ev(s, x));
                    }
                    let rp = opened(h, o.random.unwrap(), sh.k).0;
                    h.eq("random evaluation", o.re, ev(&rp, x));
                }
            });
        }
    }
}
pub fn p11(cx: &mut Cx) {
    cx.functions(&[
        "plonk::{keygen_vk,keygen_pk,create_proof,verify_proof}", "permutation::prover", "lookup::prover", "vanishing::prover", "multiopen", "commitment", "batch_invert_assigned",
    ]);
    p11_relations(cx);
    p11_end_to_end(cx);
}
