//! P15: MockProver accepts exactly the satisfied circuits.
use super::shapes::*;
use super::util::*;
use crate::core::*;
use crate::poly::eval_nodes;
use ff::{Field, PrimeField};
use halo2_proofs::dev::{MockProver, VerifyFailure};
use halo2_proofs::plonk::Assigned;
use pasta_curves::sym::{with_dag, Op, Pc};
use pasta_curves::Fp;
use rand_core::RngCore;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// value of a cell or expression: None is a blinding (unknown) cell
type V = Option<Fp>;

struct Case {
    sh: Shape,
    adv: BTreeMap<(usize, usize), Fp>,
    ins: Vec<Fp>,
}
#[derive(Debug, PartialEq, Eq, Clone, Default)]
struct Count {
    constraint: usize,
    poison: bool,
    lookup: usize,
    perm: bool,
    unassigned: usize,
}
impl Case {
    fn cell(&self, c: usize, row: usize) -> V {
        if row >= self.sh.usable() {
            None
        } else {
            Some(self.adv.get(&(c, row)).copied().unwrap_or(Fp::zero()))
        }
    }
    fn at(&self, e: &E, row: usize, fixed: &Vec<Vec<Fp>>) -> V {
        let n = 1i64 << self.sh.k;
        let ro = |r: i32| (row as i64 + r as i64).rem_euclid(n) as usize;
        let zero = |x: V| matches!(x, Some(v) if v.shadow() == Fp::zero().shadow());
        Some(match e {
            E::C(x) => Fp::from(*x),
            E::A(c, r) => return self.cell(*c, ro(*r)),
            E::F(c) => fixed[*c][row],
            E::I(_, r) => self.ins.get(ro(*r)).copied().unwrap_or(Fp::zero()),
            E::S(q) => Fp::from(self.sh.enable.contains(&(*q, row)) as u64),
            E::Add(a, b) => self.at(a, row, fixed)? + self.at(b, row, fixed)?,
            E::Sub(a, b) => self.at(a, row, fixed)? - self.at(b, row, fixed)?,
            E::Neg(a) => -self.at(a, row, fixed)?,
            E::Mul(a, b) => {
                let (x, y) = (self.at(a, row, fixed), self.at(b, row, fixed));
                // zero times a blinding value is zero
                if (zero(x) && y.is_none()) || (zero(y) && x.is_none()) {
                    return Some(Fp::zero());
                }
                x? * y?
            }
            E::Scale(a, k) => self.at(a, row, fixed)? * Fp::from(*k),
        })
    }
    fn constraints(&self) -> Vec<(String, V)> {
        let fixed = self.sh.fixed_values();
        let mut v = vec![];
        for (gi, g) in self.sh.gates.iter().enumerate() {
            for row in 0..1usize << self.sh.k {
                for (pi, p) in g.iter().enumerate() {
                    v.push((format!("gate {} polynomial {} row {}", gi, pi, row), self.at(p, row, &fixed)));
                }
            }
        }
        v
    }
    fn value(&self, c: Col, row: usize) -> Fp {
        match c {
            Col::A(i) => self.cell(i, row).unwrap(),
            Col::F(i) => self.sh.fixed_values()[i][row],
            Col::I(_) => self.ins.get(row).copied().unwrap_or(Fp::zero()),
        }
    }
    fn assigned(&self, c: Col, row: usize) -> bool {
        match c {
            Col::A(i) => self.adv.contains_key(&(i, row)),
            _ => true,
        }
    }
    fn expected(&self) -> Count {
        let mut c = Count::default();
        let nz = |x: Fp| x.shadow() != Fp::zero().shadow();
        for (_, v) in self.constraints() {
            match v {
                None => c.poison = true,
                Some(x) => c.constraint += nz(x) as usize,
            }
        }
        let fixed = self.sh.fixed_values();
        for l in &self.sh.lookups {
            let table: BTreeSet<Vec<[u8; 32]>> =
                (0..self.sh.usable()).map(|r| l.iter().map(|(_, t)| fixed[self.sh.nf + t][r].shadow().to_repr()).collect()).collect();
            for r in 0..self.sh.usable() {
                let x: Vec<V> = l.iter().map(|(e, _)| self.at(e, r, &fixed)).collect();
                let ok = x.iter().all(|v| v.is_some()) && table.contains(&x.iter().map(|v| v.unwrap().shadow().to_repr()).collect::<Vec<_>>());
                c.lookup += !ok as usize;
            }
        }
        for ((lc, lr), (rc, rr)) in &self.sh.copies {
            // a cell without a value equals no cell with one
            c.perm |= self.assigned(*lc, *lr) != self.assigned(*rc, *rr) || nz(self.value(*lc, *lr) - self.value(*rc, *rr));
        }
        for (q, row) in &self.sh.enable {
            for g in &self.sh.gates {
                let mut cells: Vec<(Col, i32)> = vec![];
                let mut uses = false;
                for p in g {
                    p.visit(&mut |e| {
                        match e {
                            E::S(x) if x == q => uses = true,
                            E::A(c, r) => cells.push((Col::A(*c), *r)),
                            E::F(c) => cells.push((Col::F(*c), 0)),
                            E::I(c, r) => cells.push((Col::I(*c), *r)),
                            _ => {}
                        };
                    });
                }
                if !uses {
                    continue;
                }
                for (col, r) in cells {
                    let at = (*row as i64 + r as i64).rem_euclid(1 << self.sh.k) as usize;
                    let there = match col {
                        Col::A(c) => self.adv.contains_key(&(c, at)),
                        Col::F(c) => self.sh.fixed.iter().any(|f| f.0 == c && f.1 == at),
                        Col::I(_) => at < self.ins.len(),
                    };
                    c.unassigned += !there as usize;
                }
            }
        }
        c
    }
    fn verdict(&self) -> Result<(bool, Count), String> {
        set_shape(&self.sh);
        let w: Wit = self.adv.iter().map(|((c, r), v)| (*c, *r, Assigned::from(*v))).collect();
        set_wits(vec![w]);
        let inst = vec![self.ins.clone(); self.sh.ni];
        let p = MockProver::run(self.sh.k, &Circ, inst).map_err(|e| format!("{:?}", e))?;
        let mut c = Count::default();
        let r = p.verify();
        let ok = r.is_ok();
        for e in r.err().unwrap_or_default() {
            match e {
                VerifyFailure::CellNotAssigned { .. } | VerifyFailure::InstanceCellNotAssigned { .. } => c.unassigned += 1,
                VerifyFailure::ConstraintNotSatisfied { .. } => c.constraint += 1,
                VerifyFailure::ConstraintPoisoned { .. } => c.poison = true,
                VerifyFailure::Lookup { .. } => c.lookup += 1,
                VerifyFailure::Permutation { .. } => c.perm = true,
            }
        }
        Ok((ok, c))
    }
    fn compare(&self, h: &mut H, what: &str) {
        let want = self.expected();
        match self.verdict() {
            Err(e) => h.ok(&format!("{}: {}", what, e), false),
            Ok((ok, got)) => {
                h.ok(&format!("{}: accepted {} but the circuit gives {:?} (reported {:?})", what, ok, want, got), ok == (want == Count::default()));
                // which violations are reported
                h.ok(&format!("{}: reported {:?}, the circuit gives {:?}", what, got, want), got == want);
            }
        }
    }
}

fn expr(r: &mut Rng, nin: usize, depth: u32, inst: bool, fixed: bool) -> E {
    let leaf = |r: &mut Rng| {
        let rot = [0, 0, 1, -1, 2][r.next_u32() as usize % 5];
        match r.next_u32() % 8 {
            0 => c(1 + r.next_u64() % 5),
            1 if inst => i(0, [0, 1][r.next_u32() as usize % 2]),
            2 if fixed => f(0),
            _ => a(r.next_u32() as usize % nin, rot),
        }
    };
    if depth == 0 {
        return leaf(r);
    }
    let x = expr(r, nin, depth - 1, inst, fixed);
    let y = leaf(r);
    match r.next_u32() % 5 {
        0 => x + y,
        1 => x - y,
        2 => x.scale(3) + y,
        3 => (-x) * y,
        _ => x * y,
    }
}
fn shape(r: &mut Rng) -> (Shape, usize) {
    let nin = 1 + r.next_u32() as usize % 2;
    let ng = 1 + r.next_u32() as usize % 3;
    let nl = r.next_u32() as usize % 3;
    let mut sh = Shape { name: "mock", k: 4 + r.next_u32() % 2, na: nin + ng + 1 + nl, nf: 1, ni: r.next_u32() as usize % 2, ..Default::default() };
    let nout = nin + ng;
    for g in 0..ng {
        sh.sel.push(r.next_u32() % 4 != 0);
        let d = r.next_u32() % 3;
        let fx = r.next_u32() % 3 == 0;
        let e = expr(r, nin, d, sh.ni > 0, fx);
        let out = a(nin + g, [0, 0, 1, -1][r.next_u32() as usize % 4]);
        let mut ps = vec![match r.next_u32() % 3 {
            0 => (out - e) * s(g),
            1 => s(g).scale(2) * (out - e),
            _ => s(g) * (out - e),
        }];
        if r.next_u32() % 3 == 0 {
            // a second polynomial on the previous output
            if g > 0 {
                ps.push(s(g) * (a(nin + g - 1, 0) - a(nin + g - 1, 0) * c(1)));
            }
            ps.push(s(g) * c(0));
        }
        sh.gates.push(ps);
    }
    // a table of two columns
    if nl > 0 {
        sh.tables = 2;
        sh.sel.push(false);
        let q = sh.sel.len() - 1;
        let rows = 2 + r.next_u64() % 3;
        sh.table = vec![(0..rows).map(|x| Fp::from(x)).collect(), (0..rows).map(|x| Fp::from(x * x + 5 * (x == 0) as u64)).collect()];
        let (x, y) = (nout + 1, nout + nl);
        let mut l = vec![(s(q) * a(x, 0), 0)];
        if nl == 2 {
            l.push((s(q) * a(y, 0) + (c(1) - s(q)) * c(5), 1));
        }
        sh.lookups.push(l);
        if r.next_u32() % 2 == 0 {
            sh.lookups.push(vec![(a(x, 0), 0)]);
        }
    }
    sh.equality = (0..nin).chain([nout]).map(Col::A).collect();
    if sh.ni > 0 {
        sh.equality.push(Col::I(0));
    }
    if r.next_u32() % 2 == 0 {
        sh.equality.push(Col::F(0));
    }
    let u = sh.usable();
    for row in 0..u {
        for q in 0..sh.sel.len() {
            // rotations stay inside the usable rows
            let inner = (1..u - 2).contains(&row) || q >= ng;
            if inner && r.next_u32() % 3 != 0 {
                sh.enable.push((q, row));
            }
        }
        sh.fixed.push((0, row, Assigned::from(Fp::from(2 + r.next_u64() % 4))));
    }
    for _ in 0..r.next_u32() % 6 {
        let cell = |r: &mut Rng| {
            let c = sh.equality[r.next_u32() as usize % sh.equality.len()];
            (c, r.next_u32() as usize % u)
        };
        let (x, y) = (cell(r), cell(r));
        if matches!(x.0, Col::F(_)) && matches!(y.0, Col::F(_)) {
            continue;
        }
        sh.copies.push((x, y));
    }
    (sh, nin)
}
/// A satisfying assignment with free inputs; cells tied by copies share a value. `v` makes values.
fn honest(sh: &Shape, nin: usize, r: &mut Rng, v: &mut dyn FnMut(&str) -> Fp) -> Option<Case> {
    let u = sh.usable();
    let nout = nin + sh.gates.len();
    let mut cs = Case { sh: sh.clone(), adv: BTreeMap::new(), ins: vec![] };
    // copy classes
    let mut cells: Vec<(Col, usize)> = vec![];
    for c in 0..sh.na {
        cells.extend((0..u).map(|row| (Col::A(c), row)));
    }
    cells.extend((0..u).map(|row| (Col::F(0), row)));
    if sh.ni > 0 {
        cells.extend((0..u).map(|row| (Col::I(0), row)));
    }
    let idx: HashMap<(Col, usize), usize> = cells.iter().enumerate().map(|(i, c)| (*c, i)).collect();
    let mut cl: Vec<usize> = (0..cells.len()).collect();
    for (x, y) in &sh.copies {
        let (x, y) = (cl[idx[x]], cl[idx[y]]);
        cl.iter_mut().for_each(|c| {
            if *c == x {
                *c = y
            }
        });
    }
    let fixed = sh.fixed_values();
    let mut val: HashMap<usize, Fp> = HashMap::new();
    for (i, (c, row)) in cells.iter().enumerate() {
        if let Col::F(_) = c {
            if let Some(o) = val.insert(cl[i], fixed[0][*row]) {
                if o.shadow() != fixed[0][*row].shadow() {
                    return None;
                }
            }
        }
    }
    let mut get = |i: usize| *val.entry(cl[i]).or_insert_with(|| v(&format!("c{}", cl[i])));
    for (i, (c, row)) in cells.iter().enumerate() {
        match c {
            Col::A(c) if *c < nin || *c == nout => {
                cs.adv.insert((*c, *row), get(i));
            }
            Col::I(_) => cs.ins.push(get(i)),
            _ => {}
        }
    }
    for (g, ps) in sh.gates.iter().enumerate() {
        // the output's rotation
        let mut rot = 0;
        ps[0].visit(&mut |e| {
            if let E::A(c, r) = e {
                if *c == nin + g {
                    rot = *r
                }
            }
        });
        for row in 0..u {
            cs.adv.insert((nin + g, row), v(&format!("o{}_{}", g, row)));
        }
        for row in 0..u {
            if sh.enable.contains(&(g, row)) {
                let at = (row as i64 + rot as i64) as usize;
                cs.adv.insert((nin + g, at), Fp::zero());
                let k = if let E::Mul(x, _) = &ps[0] { if let E::Scale(_, k) = **x { k } else { 1 } } else { 1 };
                let e = cs.at(&ps[0], row, &fixed).unwrap();
                cs.adv.insert((nin + g, at), -e * inv(Fp::from(k)));
            }
        }
    }
    let nl = sh.na - nout - 1;
    for row in 0..u {
        let t = r.next_u32() as usize % sh.table.get(0).map(|t| t.len()).unwrap_or(1);
        for l in 0..nl {
            cs.adv.insert((nout + 1 + l, row), sh.table[l][t]);
        }
    }
    Some(cs)
}

pub fn p15(cx: &mut Cx) {
    cx.functions(&["MockProver::{run,verify}", "impl Assignment for MockProver", "dev::util::{load,load_instance}", "permutation::keygen::Assembly::copy", "ConstraintSystem::compress_selectors"]);
    let trials = if tier_thorough() { 800 } else { 120 };
    cx.bound(&format!("{} generated circuits with 16 or 32 rows, up to 3 gates, 2 lookups (up to 2 columns), copies over advice, fixed and instance columns; every advice and instance value symbolic (lookup cells concrete), each single cell changed, removed or exceeding the columns", trials));
    for t in 0..trials {
        let mut rng = Rng(seed() * 1_500_000 + t * 7919);
        let (sh, nin) = shape(&mut rng);
        let mk = |v: &mut dyn FnMut(&str) -> Fp| honest(&sh, nin, &mut Rng(t), v);
        if mk(&mut |_| Fp::one()).is_none() {
            continue;
        }
        let lcols = nin + sh.gates.len() + 1;
        // the tests made by verify() on an arbitrary assignment are exactly the circuit's constraints
        cx.run(&format!("decisions/{}", t), |h| {
            h.policy = PcPolicy::Path;
            let mut cs = mk(&mut |_| Fp::one()).unwrap();
            for ((c, r), v) in cs.adv.iter_mut() {
                if *c < lcols {
                    *v = h.fp(&format!("a{}_{}", c, r));
                }
            }
            for (r, v) in cs.ins.iter_mut().enumerate() {
                *v = h.fp(&format!("i{}", r));
            }
            let at = with_dag(|d| d.pcs.len());
            cs.compare(h, "arbitrary assignment");
            let pcs = with_dag(|d| d.pcs[at..].to_vec());
            if h.mode == Mode::Sym {
                decisions(h, &cs, &pcs);
            } else {
                // violations of each single constraint
                perturb(h, &mk(&mut |_| Fp::one()).unwrap(), lcols);
            }
        });
        cx.run(&format!("satisfied/{}", t), |h| {
            h.policy = PcPolicy::Path;
            let cs = mk(&mut |n| h.fp(n)).unwrap();
            cs.compare(h, "satisfying assignment");
        });
        cx.run(&format!("perturbed/{}", t), |h| {
            h.policy = PcPolicy::Path;
            let cs = mk(&mut |n| h.konst(n)).unwrap();
            perturb(h, &cs, lcols);
        });
    }
    cx.run("refusals", |h| refusals(h));
    cx.witness("accepts anything", |h| {
        let mut rng = Rng(5);
        let (sh, nin) = shape(&mut rng);
        let mut cs = honest(&sh, nin, &mut rng, &mut |_| Fp::one()).unwrap();
        let at = *cs.adv.keys().find(|k| k.0 >= nin).unwrap();
        let _ = at;
        for (q, row) in sh.enable.clone() {
            if q < sh.gates.len() {
                for d in [-1i64, 0, 1] {
                    cs.adv.insert((nin + q, (row as i64 + d) as usize), Fp::from(987));
                }
            }
        }
        h.ok("accepted", cs.verdict().unwrap().0);
    });
}
/// each cell in turn given another value, or not assigned
fn perturb(h: &mut H, cs: &Case, lcols: usize) {
    cs.compare(h, "satisfying assignment");
    let keys: Vec<_> = cs.adv.keys().copied().collect();
    let u = cs.sh.usable();
    for (c, r) in keys {
        let mut x = Case { sh: cs.sh.clone(), adv: cs.adv.clone(), ins: cs.ins.clone() };
        let d = h.konst("d");
        if c < lcols {
            *x.adv.get_mut(&(c, r)).unwrap() += d;
            x.compare(h, &format!("advice {} row {} changed", c, r));
        } else {
            for e in [Fp::one(), d, Fp::from(16), -Fp::one()] {
                x.adv.insert((c, r), cs.adv[&(c, r)] + e);
                x.compare(h, &format!("looked up advice {} row {} changed", c, r));
            }
        }
        if r % 3 == 0 || r + 2 >= u {
            let mut x = Case { sh: cs.sh.clone(), adv: cs.adv.clone(), ins: cs.ins.clone() };
            x.adv.remove(&(c, r));
            x.compare(h, &format!("advice {} row {} left out", c, r));
        }
    }
    for r in 0..cs.ins.len() {
        let mut x = Case { sh: cs.sh.clone(), adv: cs.adv.clone(), ins: cs.ins.clone() };
        x.ins[r] += h.konst("d");
        x.compare(h, &format!("instance row {} changed", r));
        x.ins.truncate(r);
        x.compare(h, &format!("instance of {} rows", r));
    }
}
fn decisions(h: &mut H, cs: &Case, pcs: &[Pc]) {
    let nodes = with_dag(|d| d.nodes.clone());
    let vals: Vec<Vec<_>> = (0..2u64)
        .map(|k| {
            let m = nodes
                .iter()
                .enumerate()
                .filter(|(_, n)| n.op == Op::Var)
                .map(|(i, _)| (i as u32, Fp::random(&mut Rng(k * 1_000_003 + i as u64)).v.limbs_raw()))
                .collect();
            eval_nodes(&nodes, &m, nodes.len())
        })
        .collect();
    let val = |t: u32, k: usize| Fp::from_limbs(vals[k][t as usize]).shadow();
    let is_cell = |t: u32| nodes[t as usize].op == Op::Var;
    let zero = |t: u32| nodes[t as usize].op == Op::Const && Fp::from_limbs(nodes[t as usize].val) == Fp::zero();
    // reports print 0, 1 and -1 specially; no fixed cell holds these here
    let unit = |t: u32| nodes[t as usize].op == Op::Const && [Fp::one(), -Fp::one()].contains(&Fp::from_limbs(nodes[t as usize].val));
    let mut tested: Vec<u32> = vec![];
    let mut same: BTreeSet<(u32, u32)> = BTreeSet::new();
    for p in pcs {
        if let Pc::Eq(a, b, _) = p {
            if zero(*b) {
                tested.push(*a)
            } else if zero(*a) {
                tested.push(*b)
            } else if [a, b].iter().all(|t| !unit(**t)) && (is_cell(*a) || is_cell(*b)) {
                same.insert((*a.min(b), *a.max(b)));
            }
        }
    }
    tested.sort();
    tested.dedup();
    let sig = |t: u32| (val(t, 0) * val(t, 1).invert().unwrap_or(Fp::zero())).to_repr();
    let by: HashMap<[u8; 32], u32> = tested.iter().map(|t| (sig(*t), *t)).collect();
    for (n, v) in cs.constraints() {
        if let Some(v) = v {
            if v.t == 0 {
                continue;
            }
            match by.get(&sig(v.t)) {
                None => h.ok(&format!("{}: not tested", n), false),
                Some(t) => {
                    let k = val(*t, 0) * val(v.t, 0).invert().unwrap();
                    h.ok("scaled by a non-zero constant", k != Fp::zero());
                    h.eq(&format!("{} is what is tested", n), Fp::from_term(*t), v * k);
                }
            }
        }
    }
    // copies: the compared pairs connect exactly the classes
    let key = |c: Col, r: usize| {
        let v = cs.value(c, r);
        if v.t != 0 {
            format!("t{}", v.t)
        } else {
            format!("{:?}", v)
        }
    };
    let name = |t: u32| match t {
        t if is_cell(t) => format!("t{}", t),
        t => format!("{:?}", Fp::from_limbs(nodes[t as usize].val)),
    };
    let classes = |pairs: Vec<(String, String)>| {
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        for (a, b) in pairs {
            let ra = m.get(&a).cloned().unwrap_or(a.clone());
            let rb = m.get(&b).cloned().unwrap_or(b.clone());
            m.insert(a, ra.clone());
            m.insert(b, rb.clone());
            for v in m.values_mut() {
                if *v == ra {
                    *v = rb.clone()
                }
            }
        }
        let mut out: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for (k, v) in m {
            out.entry(v).or_default().insert(k);
        }
        out.into_values().filter(|c| c.len() > 1).collect::<BTreeSet<_>>()
    };
    let want = classes(cs.sh.copies.iter().map(|(l, r)| (key(l.0, l.1), key(r.0, r.1))).filter(|(a, b)| a != b).collect());
    let got = classes(same.iter().map(|(a, b)| (name(*a), name(*b))).filter(|(a, b)| a != b).collect());
    h.ok(&format!("compared cells {:?}, copied cells {:?}", got, want), got == want);
}
fn refusals(h: &mut H) {
    let run = |sh: &Shape, adv: &[(usize, usize)], inst: Vec<Vec<Fp>>| {
        set_shape(sh);
        set_wits(vec![adv.iter().map(|(c, r)| (*c, *r, Assigned::from(Fp::one()))).collect()]);
        MockProver::run(sh.k, &Circ, inst).is_ok()
    };
    let base = Shape { name: "refuse", k: 4, na: 2, nf: 1, ni: 1, sel: vec![true, false], equality: vec![Col::A(0), Col::I(0), Col::F(0)], ..Default::default() };
    let u = base.usable();
    let one = |n: usize| vec![vec![Fp::one(); n]];
    h.ok("plain", run(&base, &[(0, 0)], one(1)));
    for n in 0..16 {
        h.ok(&format!("{} instance rows", n), run(&base, &[(0, 0)], one(n)) == (n <= u));
    }
    h.ok("no instance column", !run(&base, &[(0, 0)], vec![]));
    h.ok("two instance columns", !run(&base, &[(0, 0)], vec![vec![], vec![]]));
    for r in 0..18 {
        h.ok(&format!("advice row {}", r), run(&base, &[(1, r)], one(0)) == (r < u));
        for q in 0..2 {
            let sh = Shape { enable: vec![(q, r)], ..base.clone() };
            h.ok(&format!("selector row {}", r), run(&sh, &[(0, 0)], one(0)) == (r < u));
        }
        let sh = Shape { fixed: vec![(0, r, Assigned::from(Fp::one()))], ..base.clone() };
        h.ok(&format!("fixed row {}", r), run(&sh, &[(0, 0)], one(0)) == (r < u));
        for (x, y) in [((Col::A(0), r), (Col::I(0), 0)), ((Col::A(0), 0), (Col::F(0), r)), ((Col::I(0), r), (Col::I(0), 0))] {
            let sh = Shape { copies: vec![(x, y)], ..base.clone() };
            h.ok(&format!("copy {:?} {:?}", x, y), run(&sh, &[(0, 0)], one(0)) == (r < u));
        }
    }
    let sh = Shape { copies: vec![((Col::A(1), 0), (Col::A(0), 0))], ..base.clone() };
    h.ok("copy of a column without equality", !run(&sh, &[(0, 0)], one(0)));
    for k in 1..4 {
        let sh = Shape { k, ..base.clone() };
        h.ok(&format!("k = {}", k), run(&sh, &[], one(0)) == ((1usize << k) >= sh.blinding() + 3));
    }
}
