//! Deciding what a circuit's constraints force.
//!
//! A gadget is laid out by the real code with its inputs and outputs tied to the rows of an
//! instance column. `Sys` is everything the verifier knows about the resulting circuit: the gate
//! polynomials on every row over unknown advice cells (cells joined by copies are one unknown),
//! the lookups, and the fixed cells. `Search` derives which cells every satisfying assignment must
//! share, for a prover free to choose every advice cell.
use super::rec::*;
use crate::core::*;
use ff::{Field, PrimeField};
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner};
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::{Assigned, Assignment, Circuit, Column, ConstraintSystem, Error, Expression, Fixed, FloorPlanner, Any};
use halo2_proofs::verif;
use pasta_curves::Fp;
use std::any::Any as StdAny;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::Mutex;

pub trait Gadget {
    type Config: Clone;
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config;
    fn synth(&self, c: Self::Config, l: impl Layouter<Fp>) -> Result<(), Error>;
}
/// `Circuit` for a gadget
pub struct Wrap<'a, G>(pub &'a G);
impl<'a, G: Gadget> Circuit<Fp> for Wrap<'a, G> {
    type Config = G::Config;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        Wrap(self.0)
    }
    fn configure(m: &mut ConstraintSystem<Fp>) -> G::Config {
        G::configure(m)
    }
    fn synthesize(&self, c: G::Config, l: impl Layouter<Fp>) -> Result<(), Error> {
        self.0.synth(c, l)
    }
}
pub struct Layout {
    pub cs: ConstraintSystem<Fp>,
    pub rec: Rec,
}
/// The real layout of a gadget.
pub fn lay<G: Gadget>(g: &G, inst: Vec<Vec<Fp>>) -> Result<Layout, Error> {
    let mut cs = ConstraintSystem::default();
    let cfg = G::configure(&mut cs);
    let mut rec = Rec::new(inst);
    let consts = verif::constants(&cs);
    SimpleFloorPlanner::synthesize(&mut rec, &Wrap(g), cfg, consts)?;
    Ok(Layout { cs, rec })
}

// ---------------------------------------------------------------- polynomials over unknowns
/// a cell kept apart by `Search::relations`
const TARGET: u32 = u32::MAX - 1;
type Mono = Vec<(u32, u8)>;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Poly(pub BTreeMap<Mono, Fp>);
fn zero() -> Fp {
    Fp::zero()
}
impl Poly {
    pub fn konst(x: Fp) -> Poly {
        let mut m = BTreeMap::new();
        if x != zero() {
            m.insert(vec![], x);
        }
        Poly(m)
    }
    pub fn var(v: u32) -> Poly {
        Poly(BTreeMap::from([(vec![(v, 1)], Fp::one())]))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn add(mut self, o: &Poly, k: Fp) -> Poly {
        for (m, c) in &o.0 {
            let e = self.0.entry(m.clone()).or_insert_with(zero);
            *e = *e + *c * k;
            if *e == zero() {
                self.0.remove(m);
            }
        }
        self
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r: BTreeMap<Mono, Fp> = BTreeMap::new();
        for (a, x) in &self.0 {
            for (b, y) in &o.0 {
                let mut m: Mono = Vec::with_capacity(a.len() + b.len());
                let (mut i, mut j) = (0, 0);
                while i < a.len() || j < b.len() {
                    if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                        m.push(a[i]);
                        i += 1;
                    } else if i == a.len() || b[j].0 < a[i].0 {
                        m.push(b[j]);
                        j += 1;
                    } else {
                        m.push((a[i].0, a[i].1 + b[j].1));
                        i += 1;
                        j += 1;
                    }
                }
                let e = r.entry(m).or_insert_with(zero);
                *e = *e + *x * *y;
            }
        }
        r.retain(|_, c| *c != zero());
        Poly(r)
    }
    pub fn vars(&self) -> BTreeSet<u32> {
        self.0.keys().flatten().map(|x| x.0).collect()
    }
    pub fn subst(&self, v: u32, x: Fp) -> Poly {
        let mut r: BTreeMap<Mono, Fp> = BTreeMap::new();
        for (m, c) in &self.0 {
            let mut k = *c;
            let mut n = m.clone();
            if let Some(i) = m.iter().position(|y| y.0 == v) {
                for _ in 0..m[i].1 {
                    k = k * x;
                }
                n.remove(i);
            }
            let e = r.entry(n).or_insert_with(zero);
            *e = *e + k;
        }
        r.retain(|_, c| *c != zero());
        Poly(r)
    }
    pub fn degree(&self) -> u32 {
        self.0.keys().map(|m| m.iter().map(|x| x.1 as u32).sum()).max().unwrap_or(0)
    }
    fn coef(&self, m: &Mono) -> Fp {
        self.0.get(m).copied().unwrap_or_else(zero)
    }
    /// coefficients of a polynomial in one unknown
    fn univariate(&self, v: u32) -> Vec<Fp> {
        let mut r = vec![zero(); self.degree() as usize + 1];
        for (m, c) in &self.0 {
            r[m.first().map_or(0, |x| x.1) as usize] = *c;
        }
        let _ = v;
        r
    }
    /// If the polynomial is Q(l) for a linear form l (without constant, monic in its first unknown): (l, Q).
    fn of_linear_form(&self) -> Option<(Poly, Vec<Fp>)> {
        let d = self.degree();
        let vs: Vec<u32> = self.vars().into_iter().collect();
        if d == 0 || d > 64 || vs.len() > 64 {
            return None;
        }
        let x = vs[0];
        let lead = self.coef(&vec![(x, d as u8)]);
        if lead == zero() {
            return None;
        }
        let s = (lead * Fp::from(d as u64)).invert().unwrap();
        let mut l = Poly::var(x);
        for y in &vs[1..] {
            let m = if d == 1 { vec![(*y, 1)] } else { vec![(x, d as u8 - 1), (*y, 1)] };
            l = l.add(&Poly::var(*y), self.coef(&m) * s);
        }
        let mut q = self.clone();
        for y in &vs[1..] {
            q = q.subst(*y, zero());
        }
        let q = q.univariate(x);
        if vs.len() > 1 {
            // check Q(l) = self
            let mut acc = Poly::default();
            for c in q.iter().rev() {
                acc = acc.mul(&l).add(&Poly::konst(*c), Fp::one());
                if acc.0.len() > 4000 {
                    return None;
                }
            }
            if acc != *self {
                return None;
            }
        }
        Some((l, q))
    }
}
/// the roots of a univariate polynomial
pub fn roots(f: &[Fp]) -> Vec<Fp> {
    let trim = |mut f: Vec<Fp>| {
        while f.last() == Some(&zero()) {
            f.pop();
        }
        f
    };
    let rem = |a: &[Fp], m: &[Fp]| -> Vec<Fp> {
        let mut a = trim(a.to_vec());
        let li = m.last().unwrap().invert().unwrap();
        while a.len() >= m.len() {
            let k = *a.last().unwrap() * li;
            let s = a.len() - m.len();
            for i in 0..m.len() {
                a[s + i] = a[s + i] - k * m[i];
            }
            a.pop();
            a = trim(a);
        }
        a
    };
    let mul = |a: &[Fp], b: &[Fp]| -> Vec<Fp> {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![zero(); a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                r[i + j] = r[i + j] + *x * *y;
            }
        }
        r
    };
    let gcd = |a: &[Fp], b: &[Fp]| -> Vec<Fp> {
        let (mut a, mut b) = (trim(a.to_vec()), trim(b.to_vec()));
        while !b.is_empty() {
            let r = rem(&a, &b);
            a = b;
            b = r;
        }
        a
    };
    let mut f = trim(f.to_vec());
    let mut out = vec![];
    if f.len() <= 1 {
        return out;
    }
    // small integers first: range checks
    let mut i = 0u64;
    while f.len() > 1 && i < 64 {
        let x = Fp::from(i);
        while f.len() > 1 && f.iter().rev().fold(zero(), |a, c| a * x + *c) == zero() {
            if !out.contains(&x) {
                out.push(x);
            }
            // divide by (X - x)
            let mut q = vec![zero(); f.len() - 1];
            let mut c = zero();
            for j in (1..f.len()).rev() {
                c = f[j] + c * x;
                q[j - 1] = c;
            }
            f = trim(q);
        }
        i += 1;
    }
    if f.len() <= 1 {
        return out;
    }
    let pow = |base: &[Fp], e: &[u64; 4], m: &[Fp]| -> Vec<Fp> {
        let mut acc = vec![Fp::one()];
        for i in (0..256).rev() {
            acc = rem(&mul(&acc, &acc), m);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                acc = rem(&mul(&acc, base), m);
            }
        }
        acc
    };
    let minus_one = (-Fp::one()).to_repr();
    let mut pm1 = [0u64; 4];
    for i in 0..4 {
        pm1[i] = u64::from_le_bytes(minus_one[i * 8..i * 8 + 8].try_into().unwrap());
    }
    // x^p - x
    let x = vec![zero(), Fp::one()];
    let mut xp = if f.len() == 2 { rem(&x, &f) } else { mul(&pow(&x, &pm1, &f), &x) };
    xp.resize(xp.len().max(2), zero());
    if f.len() > 2 {
        xp[1] = xp[1] - Fp::one();
    }
    let g = if f.len() == 2 { f.clone() } else { gcd(&f, &rem(&xp, &f)) };
    // split
    let half = [pm1[0] >> 1 | pm1[1] << 63, pm1[1] >> 1 | pm1[2] << 63, pm1[2] >> 1 | pm1[3] << 63, pm1[3] >> 1];
    let mut todo = vec![g];
    let mut shift = 1u64;
    while let Some(g) = todo.pop() {
        if g.len() <= 1 {
            continue;
        }
        if g.len() == 2 {
            let r = -g[0] * g[1].invert().unwrap();
            if !out.contains(&r) {
                out.push(r);
            }
            continue;
        }
        loop {
            shift += 1;
            let mut h = pow(&[Fp::from(shift), Fp::one()], &half, &g);
            h.resize(h.len().max(1), zero());
            h[0] = h[0] - Fp::one();
            let d = gcd(&g, &h);
            if d.len() > 1 && d.len() < g.len() {
                // quotient
                let mut q = vec![zero(); g.len() - d.len() + 1];
                let mut a = g.clone();
                let li = d.last().unwrap().invert().unwrap();
                for s in (0..q.len()).rev() {
                    let k = a[s + d.len() - 1] * li;
                    q[s] = k;
                    for i in 0..d.len() {
                        a[s + i] = a[s + i] - k * d[i];
                    }
                }
                todo.push(q);
                todo.push(d);
                break;
            }
        }
    }
    out
}

// ---------------------------------------------------------------- the constraint system of a layout
pub struct Con {
    pub name: String,
    pub gate: (usize, usize),
    pub row: usize,
    pub p: Poly,
}
pub struct Look {
    pub name: String,
    pub inputs: Vec<Poly>,
    pub table: usize,
}
pub struct Table {
    pub rows: Vec<Vec<Fp>>,
    set: HashSet<Vec<[u8; 32]>>,
    /// rows by the value of one column
    by: Vec<HashMap<[u8; 32], Vec<usize>>>,
    /// the values of a column, if they are 0..n
    pub span: Vec<Option<u64>>,
}
pub struct Sys {
    pub cons: Vec<Con>,
    pub looks: Vec<Look>,
    pub tables: Vec<Table>,
    pub class: HashMap<(At, usize), u32>,
    pub nclass: usize,
    pub known: Vec<Option<Fp>>,
    pub honest: Vec<Option<Fp>>,
    pub conflict: Option<String>,
    pub members: Vec<Vec<(At, usize)>>,
    pub rows: usize,
}
fn key(x: Fp) -> [u8; 32] {
    x.shadow().to_repr()
}
/// Gate values at the recorded cells: `cell` supplies the value of a column and row.
pub fn eval<T: Clone>(
    e: &Expression<Fp>,
    row: usize,
    n: usize,
    sel: &HashSet<(usize, usize)>,
    konst: &dyn Fn(Fp) -> T,
    cell: &dyn Fn(At, usize) -> T,
    add: &dyn Fn(T, T) -> T,
    mul: &dyn Fn(T, T) -> T,
) -> T {
    let at = |r: i32| (row as i64 + r as i64).rem_euclid(n as i64) as usize;
    e.evaluate(
        &|c| konst(c),
        &|s| konst(Fp::from(sel.contains(&(verif::selector_index(&s), row)) as u64)),
        &|q| {
            let (_, c, r) = verif::fixed_query(q);
            cell(At::F(c), at(r))
        },
        &|q| {
            let (_, c, r) = verif::advice_query(q);
            cell(At::A(c), at(r))
        },
        &|q| {
            let (_, c, r) = verif::instance_query(q);
            cell(At::I(c), at(r))
        },
        &|a| mul(konst(-Fp::one()), a),
        &|a, b| add(a, b),
        &|a, b| mul(a, b),
        &|a, k| mul(konst(k), a),
    )
}
pub struct Cells {
    pub val: HashMap<(At, usize), Option<Fp>>,
    pub sel: HashSet<(usize, usize)>,
    pub copies: Vec<((At, usize), (At, usize))>,
    pub rows: usize,
}
pub fn cells(rec: &Rec, usable: usize) -> Cells {
    let mut c = Cells { val: HashMap::new(), sel: HashSet::new(), copies: vec![], rows: 0 };
    for e in &rec.ev {
        match e {
            Ev::Set(At::S(s), r, _) => {
                c.sel.insert((*s, *r));
                c.rows = c.rows.max(r + 1);
            }
            Ev::Set(at, r, v) => {
                c.val.insert((*at, *r), v.map(|v| v.evaluate()));
                c.rows = c.rows.max(r + 1);
            }
            Ev::Copy(a, b) => c.copies.push((*a, *b)),
            Ev::Fill(f, r, v) => {
                for row in *r..usable {
                    c.val.insert((At::F(*f), row), v.map(|v| v.evaluate()));
                }
            }
            _ => {}
        }
    }
    c
}
/// can the expression be anything but zero on this row?
fn alive(e: &Expression<Fp>, row: usize, n: usize, c: &Cells) -> bool {
    eval(
        e,
        row,
        n,
        &c.sel,
        &|k| k != Fp::zero(),
        &|at, r| match at {
            At::F(_) => c.val.get(&(at, r)).map_or(false, |v| *v != Some(Fp::zero())),
            _ => true,
        },
        &|a, b| a || b,
        &|a, b| a && b,
    )
}
impl Sys {
    /// `inputs`: how many rows of instance column 0 are inputs; the others are what the circuit computes.
    pub fn new(l: &Layout, k: u32, inputs: usize) -> Sys {
        let n = 1usize << k;
        let usable = n - (l.cs.blinding_factors() + 1);
        let c = cells(&l.rec, usable);
        let mut id: HashMap<(At, usize), u32> = HashMap::new();
        let mut parent: Vec<u32> = vec![];
        let mut who: Vec<(At, usize)> = vec![];
        fn find(p: &mut Vec<u32>, x: u32) -> u32 {
            let mut r = x;
            while p[r as usize] != r {
                r = p[r as usize];
            }
            let mut y = x;
            while p[y as usize] != r {
                let z = p[y as usize];
                p[y as usize] = r;
                y = z;
            }
            r
        }
        let mut get = |p: &mut Vec<u32>, who: &mut Vec<(At, usize)>, at: (At, usize)| {
            *id.entry(at).or_insert_with(|| {
                p.push(p.len() as u32);
                who.push(at);
                p.len() as u32 - 1
            })
        };
        for (a, b) in &c.copies {
            let x = get(&mut parent, &mut who, *a);
            let y = get(&mut parent, &mut who, *b);
            let (x, y) = (find(&mut parent, x), find(&mut parent, y));
            parent[x as usize] = y;
        }
        // every advice cell the gates can see
        let gates = verif::gates(&l.cs);
        let looks = verif::lookups(&l.cs);
        let mut live: Vec<(usize, usize, usize)> = vec![];
        for row in 0..(c.rows + 2).min(usable) {
            for (g, (_, ps)) in gates.iter().enumerate() {
                for (i, p) in ps.iter().enumerate() {
                    if alive(p, row, n, &c) {
                        live.push((g, i, row));
                    }
                }
            }
        }
        let cell_of = std::cell::RefCell::new((parent, who));
        let idc = std::cell::RefCell::new(id);
        let var = |at: At, row: usize| -> Poly {
            if let At::F(_) = at {
                if !idc.borrow().contains_key(&(at, row)) {
                    return Poly::konst(c.val.get(&(at, row)).copied().flatten().unwrap_or_else(zero).shadow());
                }
            }
            let mut pw = cell_of.borrow_mut();
            let (p, w) = &mut *pw;
            let mut idm = idc.borrow_mut();
            let x = *idm.entry((at, row)).or_insert_with(|| {
                p.push(p.len() as u32);
                w.push((at, row));
                p.len() as u32 - 1
            });
            if let At::F(_) = at {
                return Poly::konst(c.val.get(&(at, row)).copied().flatten().unwrap_or_else(zero).shadow());
            }
            Poly::var(find(p, x))
        };
        let poly = |e: &Expression<Fp>, row: usize| eval(e, row, n, &c.sel, &|k| Poly::konst(k.shadow()), &|a, r| var(a, r), &|a: Poly, b: Poly| a.add(&b, Fp::one()), &|a: Poly, b: Poly| a.mul(&b));
        let mut cons = vec![];
        for (g, i, row) in live {
            let p = poly(&gates[g].1[i], row);
            if !p.is_zero() {
                cons.push(Con { name: format!("{}[{}] row {}", gates[g].0, i, row), gate: (g, i), row, p });
            }
        }
        let mut tables = vec![];
        let mut lk = vec![];
        for (li, (ins, tabs)) in looks.iter().enumerate() {
            let tv: Vec<Vec<Fp>> = (0..usable)
                .map(|row| {
                    tabs.iter()
                        .map(|t| eval(t, row, n, &c.sel, &|k| k.shadow(), &|a, r| c.val.get(&(a, r)).copied().flatten().unwrap_or_else(zero).shadow(), &|a, b| a + b, &|a, b| a * b))
                        .collect()
                })
                .collect();
            let set: HashSet<Vec<[u8; 32]>> = tv.iter().map(|r| r.iter().map(|x| key(*x)).collect()).collect();
            let mut seen = HashSet::new();
            let rows: Vec<Vec<Fp>> = tv.into_iter().filter(|r| seen.insert(r.iter().map(|x| key(*x)).collect::<Vec<_>>())).collect();
            let w = tabs.len();
            let mut by = vec![HashMap::new(); w];
            let mut span = vec![];
            for j in 0..w {
                for (i, r) in rows.iter().enumerate() {
                    by[j].entry(key(r[j])).or_insert_with(Vec::new).push(i);
                }
                let m = by[j].len() as u64;
                span.push(if (0..m).all(|x| by[j].contains_key(&key(Fp::from(x)))) { Some(m) } else { None });
            }
            tables.push(Table { rows, set, by, span });
            for row in 0..(c.rows + 2).min(usable) {
                let inputs: Vec<Poly> = ins.iter().map(|e| poly(e, row)).collect();
                lk.push(Look { name: format!("lookup {} row {}", li, row), inputs, table: li });
            }
        }
        let id = idc.into_inner();
        let (mut parent, who) = cell_of.into_inner();
        let nclass = parent.len();
        let mut s = Sys {
            cons,
            looks: lk,
            tables,
            class: HashMap::new(),
            nclass,
            known: vec![None; nclass],
            honest: vec![None; nclass],
            conflict: None,
            members: vec![vec![]; nclass],
            rows: c.rows,
        };
        for (at, x) in &id {
            s.class.insert(*at, find(&mut parent, *x));
        }
        for at in &who {
            let cl = s.class[at] as usize;
            s.members[cl].push(*at);
            let inst = |i: usize| l.rec.inst.get(i).and_then(|v| v.get(at.1)).copied().unwrap_or_else(zero);
            let (v, fixed) = match at.0 {
                At::A(_) => (c.val.get(at).copied().flatten().map(|x| x.shadow()), false),
                At::F(_) => (Some(c.val.get(at).copied().flatten().unwrap_or_else(zero).shadow()), true),
                At::I(0) => (Some(inst(0).shadow()), at.1 < inputs),
                At::I(i) => (Some(inst(i).shadow()), true),
                At::S(_) => unreachable!(),
            };
            if let Some(v) = v {
                match s.honest[cl] {
                    Some(o) if o != v => s.conflict = Some(format!("copied cells differ at {:?}", at)),
                    _ => s.honest[cl] = Some(v),
                }
                if fixed {
                    match s.known[cl] {
                        Some(o) if o != v => s.conflict = Some(format!("constants differ at {:?}", at)),
                        _ => s.known[cl] = Some(v),
                    }
                }
            }
        }
        s
    }
    /// does this assignment satisfy everything?
    pub fn violated(&self, v: &dyn Fn(u32) -> Fp) -> Option<String> {
        let ev = |p: &Poly| {
            let mut s = zero();
            for (m, c) in &p.0 {
                let mut t = *c;
                for (x, e) in m {
                    for _ in 0..*e {
                        t = t * v(*x);
                    }
                }
                s = s + t;
            }
            s
        };
        for c in &self.cons {
            if ev(&c.p) != zero() {
                return Some(c.name.clone());
            }
        }
        for l in &self.looks {
            let k: Vec<[u8; 32]> = l.inputs.iter().map(|p| key(ev(p))).collect();
            if !self.tables[l.table].set.contains(&k) {
                return Some(l.name.clone());
            }
        }
        None
    }
    pub fn honest_violation(&self) -> Option<String> {
        self.conflict.clone().or_else(|| self.violated(&|c| self.honest[c as usize].unwrap_or_else(zero)))
    }
    pub fn inst(&self, row: usize) -> Option<u32> {
        self.class.get(&(At::I(0), row)).copied()
    }
}

// ---------------------------------------------------------------- search
#[derive(Clone)]
pub struct State {
    pub val: Vec<Option<Fp>>,
    pub cand: HashMap<u32, Vec<Fp>>,
}
pub struct Search<'a> {
    /// the values to prefer, instead of the honest ones
    alt: Option<Vec<Option<Fp>>>,
    pub s: &'a Sys,
    users: Vec<Vec<usize>>,
    lusers: Vec<Vec<usize>>,
    /// gate polynomials used as linear equations: (gate, polynomial), with the unknown's position
    pub used: BTreeSet<(usize, usize)>,
    pub queries: Vec<(String, String)>,
    asked: HashMap<String, bool>,
    pub steps: u64,
    pub solver_s: f64,
    deadline: Option<std::time::Instant>,
    kind: std::cell::RefCell<Option<std::rc::Rc<Vec<u32>>>>,
    forms: std::cell::RefCell<HashMap<Vec<([u8; 32], Mono)>, Option<(Poly, Fp, u64)>>>,
}
/// searches so far: the first ones get more time
static FORGERIES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[derive(Debug)]
pub struct Dead(pub String);
impl<'a> Search<'a> {
    pub fn new(s: &'a Sys) -> Self {
        let mut users = vec![vec![]; s.nclass];
        let mut lusers = vec![vec![]; s.nclass];
        for (i, c) in s.cons.iter().enumerate() {
            for v in c.p.vars() {
                users[v as usize].push(i);
            }
        }
        for (i, l) in s.looks.iter().enumerate() {
            let vs: BTreeSet<u32> = l.inputs.iter().flat_map(|p| p.vars()).collect();
            for v in vs {
                lusers[v as usize].push(i);
            }
        }
        Search { s, users, lusers, used: BTreeSet::new(), queries: vec![], asked: HashMap::new(), steps: 0, solver_s: 0.0, deadline: None, kind: Default::default(), forms: Default::default(), alt: None }
    }
    pub fn start(&self) -> State {
        State { val: self.s.known.clone(), cand: HashMap::new() }
    }
    fn reduce(&self, p: &Poly, st: &State) -> Poly {
        let mut r: BTreeMap<Mono, Fp> = BTreeMap::new();
        for (m, c) in &p.0 {
            let mut k = *c;
            let mut n: Mono = vec![];
            for (v, e) in m {
                match st.val[*v as usize] {
                    Some(x) => {
                        for _ in 0..*e {
                            k = k * x;
                        }
                    }
                    None => n.push((*v, *e)),
                }
            }
            if k != zero() {
                let e = r.entry(n).or_insert_with(zero);
                *e = *e + k;
            }
        }
        r.retain(|_, c| *c != zero());
        Poly(r)
    }
    /// Everything that follows by constraints with a single unknown.
    pub fn propagate(&mut self, st: &mut State, from: Option<Vec<u32>>) -> Result<(), Dead> {
        let mut cq: VecDeque<usize> = VecDeque::new();
        let mut lq: VecDeque<usize> = VecDeque::new();
        let mut inq: HashSet<(bool, usize)> = HashSet::new();
        match from {
            None => {
                cq.extend(0..self.s.cons.len());
                lq.extend(0..self.s.looks.len());
            }
            Some(v) => {
                for x in v {
                    for i in &self.users[x as usize] {
                        if inq.insert((false, *i)) {
                            cq.push_back(*i);
                        }
                    }
                    for i in &self.lusers[x as usize] {
                        if inq.insert((true, *i)) {
                            lq.push_back(*i);
                        }
                    }
                }
            }
        }
        let s = self.s;
        loop {
            let mut learned: Vec<(u32, Fp)> = vec![];
            if let Some(i) = cq.pop_front() {
                inq.remove(&(false, i));
                let p = self.reduce(&s.cons[i].p, st);
                if p.is_zero() {
                    continue;
                }
                self.steps += 1;
                let vs = p.vars();
                if vs.is_empty() {
                    return Err(Dead(s.cons[i].name.clone()));
                }
                if vs.len() > 1 && (vs.len() <= 6 && p.degree() == 1 || vs.len() <= 3 && p.degree() <= 4) {
                    learned = self.linear(&vs, p, i, st)?;
                } else if vs.len() == 1 {
                    let v = *vs.iter().next().unwrap();
                    let u = p.univariate(v);
                    if u.len() == 2 {
                        self.used.insert(s.cons[i].gate);
                        learned.push((v, -u[0] * u[1].invert().unwrap()));
                    } else {
                        let old = st.cand.get(&v).cloned();
                        let c: Vec<Fp> = match old {
                            // candidates are known: keep those that fit
                            Some(o) => o.into_iter().filter(|x| u.iter().rev().fold(zero(), |a, c| a * *x + *c) == zero()).collect(),
                            None => roots(&u),
                        };
                        match c.len() {
                            0 => return Err(Dead(s.cons[i].name.clone())),
                            1 => learned.push((v, c[0])),
                            _ => {
                                st.cand.insert(v, c);
                            }
                        }
                    }
                }
            } else if let Some(i) = lq.pop_front() {
                inq.remove(&(true, i));
                let l = &s.looks[i];
                let t = &s.tables[l.table];
                let ins: Vec<Poly> = l.inputs.iter().map(|p| self.reduce(p, st)).collect();
                let kn: Vec<Option<Fp>> = ins.iter().map(|p| if p.vars().is_empty() { Some(p.coef(&vec![])) } else { None }).collect();
                if kn.iter().all(|k| k.is_some()) {
                    let k: Vec<[u8; 32]> = kn.iter().map(|x| key(x.unwrap())).collect();
                    if !t.set.contains(&k) {
                        return Err(Dead(l.name.clone()));
                    }
                    continue;
                }
                let mut rows: Option<Vec<usize>> = None;
                for (j, k) in kn.iter().enumerate() {
                    if let Some(x) = k {
                        let r = t.by[j].get(&key(*x)).cloned().unwrap_or_default();
                        rows = Some(match rows {
                            None => r,
                            Some(o) => o.into_iter().filter(|i| t.rows[*i][j] == *x).collect(),
                        });
                    }
                }
                if let Some(r) = rows {
                    self.steps += 1;
                    if r.is_empty() {
                        return Err(Dead(l.name.clone()));
                    }
                    if r.len() <= 64 {
                        for (j, p) in ins.iter().enumerate() {
                            let vs = p.vars();
                            if kn[j].is_some() || vs.len() != 1 || p.degree() != 1 {
                                continue;
                            }
                            let v = *vs.iter().next().unwrap();
                            let u = p.univariate(v);
                            let inv = u[1].invert().unwrap();
                            let mut c: Vec<Fp> = vec![];
                            for i in &r {
                                let x = (t.rows[*i][j] - u[0]) * inv;
                                if !c.contains(&x) {
                                    c.push(x);
                                }
                            }
                            if let Some(o) = st.cand.get(&v) {
                                c.retain(|x| o.contains(x));
                            }
                            match c.len() {
                                0 => return Err(Dead(l.name.clone())),
                                1 => learned.push((v, c[0])),
                                _ => {
                                    st.cand.insert(v, c);
                                }
                            }
                        }
                    }
                }
                if ins.len() > 1 {
                    for p in self.row_of(i, st) {
                        let vs = p.vars();
                        if vs.len() > 1 && vs.len() <= 3 && p.degree() <= 4 {
                            // the first constraint there is serves as the name
                            if let Some(c) = vs.iter().find_map(|v| self.users[*v as usize].first().copied()) {
                                learned.extend(self.linear(&vs, p, c, st)?);
                            }
                        } else if vs.len() == 1 {
                            let v = *vs.iter().next().unwrap();
                            let u = p.univariate(v);
                            if u.len() == 2 {
                                learned.push((v, -u[0] * u[1].invert().unwrap()));
                            }
                        }
                    }
                }
            } else {
                return Ok(());
            }
            for (v, x) in learned {
                match st.val[v as usize] {
                    Some(o) if o == x => continue,
                    Some(_) => return Err(Dead(format!("two values for {:?}", s.members[v as usize]))),
                    None => {}
                }
                if let Some(c) = st.cand.remove(&v) {
                    if !c.contains(&x) {
                        return Err(Dead(format!("value out of range for {:?}", s.members[v as usize])));
                    }
                }
                st.val[v as usize] = Some(x);
                for i in &self.users[v as usize] {
                    if inq.insert((false, *i)) {
                        cq.push_back(*i);
                    }
                }
                for i in &self.lusers[v as usize] {
                    if inq.insert((true, *i)) {
                        lq.push_back(*i);
                    }
                }
            }
        }
    }
    /// The equations of a lookup whose table row is determined.
    fn row_of(&self, i: usize, st: &State) -> Vec<Poly> {
        let l = &self.s.looks[i];
        let t = &self.s.tables[l.table];
        let ins: Vec<Poly> = l.inputs.iter().map(|p| self.reduce(p, st)).collect();
        let mut rows: Option<Vec<usize>> = None;
        for (j, p) in ins.iter().enumerate() {
            if p.vars().is_empty() {
                let x = p.coef(&vec![]);
                rows = Some(match rows {
                    None => t.by[j].get(&key(x)).cloned().unwrap_or_default(),
                    Some(o) => o.into_iter().filter(|i| t.rows[*i][j] == x).collect(),
                });
            }
        }
        match rows {
            Some(r) if !r.is_empty() && r.iter().all(|x| t.rows[*x] == t.rows[r[0]]) => {
                let row = t.rows[r[0]].clone();
                ins.into_iter().enumerate().filter(|(_, p)| !p.vars().is_empty()).map(|(j, p)| p.add(&Poly::konst(row[j]), -Fp::one())).collect()
            }
            _ => vec![],
        }
    }
    /// What a system of constraints on these unknowns determines, by elimination of the monomials, largest degree first.
    fn linear(&mut self, vs: &BTreeSet<u32>, p: Poly, i: usize, st: &mut State) -> Result<Vec<(u32, Fp)>, Dead> {
        let s = self.s;
        let deg = p.degree();
        let mut cand: BTreeSet<usize> = BTreeSet::new();
        for v in vs {
            if self.users[*v as usize].len() <= 24 {
                cand.extend(self.users[*v as usize].iter().copied());
            }
        }
        cand.remove(&i);
        if cand.len() > 64 {
            return Ok(vec![]);
        }
        let mut rows = vec![(p, i)];
        for j in cand {
            let q = self.reduce(&s.cons[j].p, st);
            if q.degree() >= 1 && q.degree() <= deg && q.vars().is_subset(vs) {
                rows.push((q, j));
            }
        }
        let looks: BTreeSet<usize> = vs.iter().flat_map(|v| self.lusers[*v as usize].iter().copied()).collect();
        if looks.len() <= 8 {
            for j in looks {
                for q in self.row_of(j, st) {
                    if q.degree() >= 1 && q.degree() <= deg && q.vars().is_subset(vs) {
                        rows.push((q, i));
                    }
                }
            }
        }
        if rows.len() < 2 {
            return Ok(vec![]);
        }
        let lead = |p: &Poly| p.0.keys().filter(|m| !m.is_empty()).max_by_key(|m| (m.iter().map(|x| x.1 as u32).sum::<u32>(), (*m).clone())).cloned();
        let mut done: Vec<(Mono, Poly)> = vec![];
        for (mut r, j) in rows {
            for (m, d) in &done {
                let c = r.coef(m);
                if c != zero() {
                    r = r.add(d, -c);
                }
            }
            let m = match lead(&r) {
                Some(m) => m,
                None if r.is_zero() => continue,
                None => return Err(Dead(s.cons[j].name.clone())),
            };
            let inv = r.coef(&m).invert().unwrap();
            let r = Poly::default().add(&r, inv);
            for (_, d) in done.iter_mut() {
                let c = d.coef(&m);
                if c != zero() {
                    *d = std::mem::take(d).add(&r, -c);
                }
            }
            done.push((m, r));
        }
        let mut out = vec![];
        for (_, d) in done {
            let vs = d.vars();
            if vs.len() != 1 {
                continue;
            }
            let v = *vs.iter().next().unwrap();
            let u = d.univariate(v);
            if u.len() == 2 {
                out.push((v, -u[0] * u[1].invert().unwrap()));
            } else if deg > 1 && !st.cand.contains_key(&v) {
                let c = roots(&u);
                match c.len() {
                    0 => return Err(Dead(s.cons[i].name.clone())),
                    1 => out.push((v, c[0])),
                    _ => {
                        st.cand.insert(v, c);
                    }
                }
            }
        }
        Ok(out)
    }
    /// Candidates that lead to a contradiction at once are dropped.
    fn probe(&mut self, st: &mut State, depth: u32) -> Result<bool, Dead> {
        let mut any = false;
        let mut todo: Vec<u32> = st.cand.keys().copied().collect();
        todo.sort();
        for v in todo {
            if st.val[v as usize].is_some() {
                continue;
            }
            let c = match st.cand.get(&v) {
                Some(c) => c.clone(),
                None => continue,
            };
            if c.len() > 16 {
                continue;
            }
            let mut keep = vec![];
            for x in &c {
                let mut t = st.clone();
                t.cand.remove(&v);
                t.val[v as usize] = Some(*x);
                let mut r = self.propagate(&mut t, Some(vec![v])).is_ok();
                if r && depth > 1 {
                    r = self.deduce(&mut t, depth - 1).is_ok();
                }
                if r {
                    keep.push(*x);
                }
            }
            if keep.is_empty() {
                return Err(Dead(format!("no value left for {:?}", self.s.members[v as usize])));
            }
            if keep.len() < c.len() {
                any = true;
                if keep.len() == 1 {
                    st.cand.remove(&v);
                    st.val[v as usize] = Some(keep[0]);
                    self.propagate(st, Some(vec![v]))?;
                } else {
                    st.cand.insert(v, keep);
                }
            }
        }
        Ok(any)
    }
    /// l + off in 0..n for a linear form l, if the constraint says so
    fn form(&self, p: &Poly) -> Option<(Poly, Fp, u64)> {
        let sig: Vec<([u8; 32], Mono)> = p.0.iter().map(|(m, c)| (key(*c), m.clone())).collect();
        if let Some(x) = self.forms.borrow().get(&sig) {
            return x.clone();
        }
        let r = (|| {
            let (l, q) = p.of_linear_form()?;
            let r = roots(&q);
            let t = progression(&r)?;
            let s: Vec<Fp> = r.iter().map(|x| *x * t).collect();
            let (off, n) = run(&s)?;
            Some((Poly::default().add(&l, t), off, n))
        })();
        self.forms.borrow_mut().insert(sig, r.clone());
        r
    }
    /// Linear relations between the digits of bounded forms (the cells eliminated), with the eliminated cells' equations.
    /// `target`: a cell to keep, as the number `target_id()`.
    fn relations(&self, st: &State, target: Option<u32>) -> (Vec<BTreeMap<u32, Fp>>, Vec<(u32, BTreeMap<u32, Fp>)>, Vec<u64>) {
        // bounded forms
        let mut bounded: Vec<(Poly, Fp, u64)> = vec![]; // form (no constant), offset, size: form + offset in 0..size
        let mut lin: Vec<Poly> = vec![];
        for c in &self.s.cons {
            let p = self.reduce(&c.p, st);
            if p.is_zero() || p.vars().is_empty() {
                continue;
            }
            if p.degree() == 1 {
                lin.push(p);
                continue;
            }
            // the constraint as written, or else with what is known
            let whole = if c.p.degree() > 1 { self.form(&c.p) } else { None };
            if let Some((l, off, n)) = whole.or_else(|| self.form(&p)) {
                let l = self.reduce(&l, st);
                let k = l.coef(&vec![]);
                bounded.push((l.add(&Poly::konst(k), -Fp::one()), off + k, n));
            }
        }
        for (v, c) in &st.cand {
            if let Some((off, n)) = run(c) {
                bounded.push((Poly::var(*v), off, n));
            }
        }
        for l in &self.s.looks {
            let t = &self.s.tables[l.table];
            for (j, p) in l.inputs.iter().enumerate() {
                let p = self.reduce(p, st);
                if p.vars().is_empty() || p.degree() != 1 {
                    continue;
                }
                if let Some(n) = t.span[j] {
                    // p in 0..n: scale to a monic form
                    let k = p.coef(&Poly::konst(Fp::one()).0.keys().next().unwrap().clone());
                    let form = p.clone().add(&Poly::konst(k), -Fp::one());
                    bounded.push((form, k, n));
                }
            }
        }
        // unknowns: the cells, then one digit per bounded form (form + offset - digit = 0)
        let base = self.s.nclass as u32;
        let mut eqs: Vec<BTreeMap<u32, Fp>> = vec![];
        let mut seen: HashMap<Vec<(u32, [u8; 32])>, u64> = HashMap::new();
        let mut digits: Vec<u64> = vec![];
        for (l, off, n) in &bounded {
            let mut e: BTreeMap<u32, Fp> = l.0.iter().map(|(m, c)| (m[0].0, *c)).collect();
            let sig: Vec<(u32, [u8; 32])> = e.iter().map(|(v, c)| (*v, key(*c))).chain([(u32::MAX, key(*off))]).collect();
            if let Some(o) = seen.get(&sig) {
                if *o <= *n {
                    continue;
                }
            }
            seen.insert(sig, *n);
            e.insert(u32::MAX, *off);
            e.insert(base + digits.len() as u32, -Fp::one());
            digits.push(*n);
            eqs.push(e);
        }
        if let Some(t) = target {
            eqs.push(BTreeMap::from([(t, Fp::one()), (TARGET, -Fp::one())]));
        }
        for p in &lin {
            eqs.push(p.0.iter().map(|(m, c)| (m.first().map_or(u32::MAX, |x| x.0), *c)).collect());
        }
        // eliminate the cells
        let mut rel: Vec<BTreeMap<u32, Fp>> = vec![];
        let mut pivots: Vec<(u32, BTreeMap<u32, Fp>)> = vec![];
        let mut at: HashMap<u32, usize> = HashMap::new();
        for e in eqs {
            let mut e = e;
            loop {
                let v = match e.keys().find(|v| **v < base && at.contains_key(v)) {
                    Some(v) => *v,
                    None => break,
                };
                let (_, p) = &pivots[at[&v]];
                let k = e[&v] * p[&v].invert().unwrap();
                for (x, c) in p {
                    let n = e.get(x).copied().unwrap_or_else(zero) - k * *c;
                    if n == zero() {
                        e.remove(x);
                    } else {
                        e.insert(*x, n);
                    }
                }
            }
            let first = e.keys().find(|v| **v < base).copied();
            match first {
                Some(v) => {
                    at.insert(v, pivots.len());
                    pivots.push((v, e));
                }
                None => {
                    if e.keys().any(|v| *v != u32::MAX) {
                        rel.push(e)
                    }
                }
            }
        }
        // two digits in a fixed relation bound each other
        for e in &rel {
            let d: Vec<u32> = e.keys().copied().filter(|v| *v != u32::MAX).collect();
            if d.len() != 2 || d.contains(&TARGET) {
                continue;
            }
            for (x, y) in [(d[0], d[1]), (d[1], d[0])] {
                let (n, m) = (digits[(x - base) as usize], digits[(y - base) as usize]);
                if n > 4096 {
                    continue;
                }
                let k = -e[&y].invert().unwrap();
                let c = e.get(&u32::MAX).copied().unwrap_or_else(zero) * k;
                let step = e[&x] * k;
                let mut at = c;
                let mut fit = vec![];
                for i in 0..n {
                    if small(at).map_or(false, |v| v < m) {
                        fit.push(i);
                    }
                    at = at + step;
                }
                let run = fit.len() as u64;
                if run < n && run > 0 && fit[fit.len() - 1] == run - 1 {
                    digits[(x - base) as usize] = run;
                }
            }
        }
        (rel, pivots, digits)
    }
    /// Digits: unknown linear forms of bounded size whose combination is known. z3 decides that no two choices of digits agree.
    fn digits(&mut self, st: &mut State, depth: u32) -> Result<bool, Dead> {
        let mut choices: Vec<Vec<Vec<(u32, Fp)>>> = vec![];
        let (rel, pivots, digits) = self.relations(st, None);
        if digits.is_empty() {
            return Ok(false);
        }
        let base = self.s.nclass as u32;
        let mut fixed: HashMap<u32, Fp> = HashMap::new();
        for e in &rel {
            let mut terms: Vec<(u32, Fp, u64)> = e.iter().filter(|(v, _)| **v != u32::MAX).map(|(v, c)| (*v, *c, digits[(*v - base) as usize])).collect();
            let mut konst = e.get(&u32::MAX).copied().unwrap_or_else(zero);
            // scale so that some coefficient is one
            let mut done = false;
            for i in 0..terms.len() {
                let k = terms[i].1.invert().unwrap();
                let t: Vec<_> = terms.iter().map(|x| (x.0, x.1 * k, x.2)).collect();
                if t.iter().all(|x| pow2(x.1).is_some()) {
                    konst = konst * k;
                    terms = t;
                    done = true;
                    break;
                }
            }
            if !done {
                continue;
            }
            if !self.unique(&terms, false) {
                continue;
            }
            // the digits of -konst, and of that number plus multiples of the modulus
            let all = decode(-konst, &terms);
            if all.is_empty() {
                return Err(Dead("no digits".into()));
            }
            if all.len() == 1 {
                for (v, d) in &all[0] {
                    if let Some(o) = fixed.insert(*v, *d) {
                        if o != *d {
                            return Err(Dead("digits disagree".into()));
                        }
                    }
                }
            } else if all.len() <= 4 {
                choices.push(all);
            }
        }
        if fixed.is_empty() {
            // which of the choices survives?
            if depth == 0 {
                return Ok(false);
            }
            for all in choices {
                let mut alive = vec![];
                for c in &all {
                    let f: HashMap<u32, Fp> = c.iter().copied().collect();
                    let mut t = st.clone();
                    let learned = match self.settle(&mut t, &f, &pivots) {
                        Ok(l) => l,
                        Err(_) => continue,
                    };
                    if self.propagate(&mut t, Some(learned)).is_err() || self.deduce(&mut t, depth - 1).is_err() {
                        continue;
                    }
                    alive.push(t);
                }
                match alive.len() {
                    0 => return Err(Dead("no choice of digits".into())),
                    1 => {
                        let t = alive.pop().unwrap();
                        if t.val == st.val {
                            continue;
                        }
                        *st = t;
                        return Ok(true);
                    }
                    _ => {}
                }
            }
            return Ok(false);
        }
        let learned = self.settle(st, &fixed, &pivots)?;
        if learned.is_empty() {
            return Ok(false);
        }
        self.propagate(st, Some(learned))?;
        Ok(true)
    }
    /// What follows for each way of writing a known number in digits that are not determined otherwise.
    fn alternatives(&mut self, st: &State) -> Vec<State> {
        let (rel, pivots, digits) = self.relations(st, None);
        let base = self.s.nclass as u32;
        let mut out = vec![];
        for e in &rel {
            let terms: Vec<(u32, Fp, u64)> = e.iter().filter(|(v, _)| **v != u32::MAX).map(|(v, c)| (*v, *c, digits[(*v - base) as usize])).collect();
            let konst = e.get(&u32::MAX).copied().unwrap_or_else(zero);
            let scaled = terms.iter().find_map(|y| {
                let k = y.1.invert().unwrap();
                let t: Vec<_> = terms.iter().map(|x| (x.0, x.1 * k, x.2)).collect();
                if t.iter().all(|x| pow2(x.1).is_some()) { Some((t, konst * k)) } else { None }
            });
            let (terms, konst) = match scaled {
                Some(x) => x,
                None => continue,
            };
            let all = decode(-konst, &terms);
            if all.len() > 4 {
                continue;
            }
            for c in &all {
                let f: HashMap<u32, Fp> = c.iter().copied().collect();
                let mut t = st.clone();
                if let Ok(l) = self.settle(&mut t, &f, &pivots) {
                    if !l.is_empty() && self.propagate(&mut t, Some(l)).is_ok() && self.all_digits(&mut t) {
                        out.push(t);
                    }
                }
            }
        }
        out
    }
    fn all_digits(&mut self, st: &mut State) -> bool {
        loop {
            match self.digits(st, 0) {
                Ok(true) => {}
                Ok(false) => return true,
                Err(_) => return false,
            }
        }
    }
    /// Cells that follow from digits, by the linear equations form + offset = digit.
    fn settle(&self, st: &mut State, fixed: &HashMap<u32, Fp>, pivots: &[(u32, BTreeMap<u32, Fp>)]) -> Result<Vec<u32>, Dead> {
        let base = self.s.nclass as u32;
        let mut learned: Vec<u32> = vec![];
        let mut eqs: Vec<BTreeMap<u32, Fp>> = pivots
            .iter()
            .map(|(_, e)| {
                let mut r = BTreeMap::new();
                let mut k = zero();
                for (v, c) in e {
                    let (v, c) = (*v, *c);
                    if v == u32::MAX {
                        k = k + c;
                    } else if let Some(d) = fixed.get(&v) {
                        k = k + c * *d;
                    } else if v < base && st.val[v as usize].is_some() {
                        k = k + c * st.val[v as usize].unwrap();
                    } else {
                        r.insert(v, c);
                    }
                }
                r.insert(u32::MAX, k);
                r
            })
            .collect();
        loop {
            let mut any = false;
            for e in eqs.iter_mut() {
                let us: Vec<u32> = e.keys().copied().filter(|v| *v != u32::MAX).collect();
                for v in &us {
                    if *v < base {
                        if let Some(x) = st.val[*v as usize] {
                            let c = e.remove(v).unwrap();
                            let k = e[&u32::MAX] + c * x;
                            e.insert(u32::MAX, k);
                            any = true;
                        }
                    }
                }
                let us: Vec<u32> = e.keys().copied().filter(|v| *v != u32::MAX).collect();
                if us.len() == 1 && us[0] < base && st.val[us[0] as usize].is_none() {
                    let v = us[0];
                    let x = -e[&u32::MAX] * e[&v].invert().unwrap();
                    if let Some(c) = st.cand.remove(&v) {
                        if !c.contains(&x) {
                            return Err(Dead("digit out of range".into()));
                        }
                    }
                    st.val[v as usize] = Some(x);
                    learned.push(v);
                    any = true;
                }
            }
            if !any {
                break;
            }
        }
        Ok(learned)
    }
    /// z3: do two different choices of digits ever give the same sum?
    /// `wrap`: also modulo the modulus.
    fn unique(&mut self, terms: &[(u32, Fp, u64)], wrap: bool) -> bool {
        let mut t: Vec<(u32, u64)> = terms.iter().map(|x| (pow2(x.1).unwrap(), x.2)).collect();
        t.sort();
        let sig = format!("{:?} {}", t, wrap);
        if let Some(a) = self.asked.get(&sig) {
            return *a;
        }
        let w = 520;
        let mut s = String::from("(set-logic QF_BV)\n");
        for (side, _) in ["a", "b"].iter().zip(0..) {
            for (i, (_, n)) in t.iter().enumerate() {
                let bits = 64 - (n - 1).leading_zeros().min(63);
                s += &format!("(declare-const {}{} (_ BitVec {}))\n", side, i, bits);
                if !n.is_power_of_two() {
                    s += &format!("(assert (bvult {}{} (_ bv{} {})))\n", side, i, n, bits);
                }
            }
            let sum: Vec<String> = t
                .iter()
                .enumerate()
                .map(|(i, (e, n))| {
                    let bits = 64 - (n - 1).leading_zeros().min(63);
                    let z = format!("((_ zero_extend {}) {}{})", w - bits, side, i);
                    format!("(bvshl {} (_ bv{} {}))", z, e, w)
                })
                .collect();
            s += &format!("(define-fun s{} () (_ BitVec {}) {})\n", side, w, sum.iter().skip(1).fold(sum[0].clone(), |a, b| format!("(bvadd {} {})", a, b)));
        }
        let p = "(_ bv28948022309329048855892746252171976963363056481941560715954676764349967630337 520)";
        // sums are below 2^260: `decode` tries the first 64 multiples of the modulus
        let top: f64 = t.iter().map(|(e, n)| (*n as f64) * 2f64.powi(*e as i32)).sum::<f64>().log2();
        if top >= 259.9 {
            return false;
        }
        let mult = if top >= 254.0 && wrap { 1u64 << (top as u64 - 253).min(8) } else { 0 };
        let ms: Vec<String> = (0..=mult).map(|m| format!("(= sa (bvadd sb (bvmul {} (_ bv{} {}))))", p, m, w)).collect();
        s += &format!("(assert (or false {}))\n", ms.join(" "));
        s += &format!("(assert (or false {}))\n(check-sat)\n", (0..t.len()).map(|i| format!("(distinct a{} b{})", i, i)).collect::<Vec<_>>().join(" "));
        let (r, dt) = run_z3("z3-new", &s, 60);
        self.solver_s += dt;
        let ok = r == "unsat";
        self.queries.push((sig.clone(), r));
        self.asked.insert(sig, ok);
        ok
    }
    /// z3: does every satisfying assignment keep the cell below 2^bits, and does the value 2^bits - 1 fit the relations used?
    pub fn below(&mut self, target: u32, bits: u32) -> Result<bool, Dead> {
        let mut st = self.start();
        self.propagate(&mut st, None)?;
        if let Some(x) = st.val[target as usize] {
            return Ok(key(x).iter().enumerate().all(|(i, b)| (0..8).all(|j| b >> j & 1 == 0 || 8 * i as u32 + j < bits)));
        }
        let (rel, _, digits) = self.relations(&st, Some(target));
        let base = self.s.nclass as u32;
        // relations connected with the target
        let mut take: BTreeSet<u32> = BTreeSet::from([TARGET]);
        let mut used = vec![false; rel.len()];
        for _ in 0..3 {
            for (i, e) in rel.iter().enumerate() {
                if !used[i] && e.keys().any(|v| *v != u32::MAX && take.contains(v)) && e.len() < 400 {
                    used[i] = true;
                    take.extend(e.keys().copied().filter(|v| *v != u32::MAX));
                }
            }
        }
        let p = "28948022309329048855892746252171976963363056481941560715954676764349967630337";
        let name = |v: u32| if v == TARGET { "t".to_string() } else { format!("d{}", v - base) };
        // the integer of smallest magnitude
        let dec = |x: Fp| -> (bool, [u8; 32]) {
            let big = |r: Fp| {
                let mut k = key(r);
                k.reverse();
                k
            };
            let (a, b) = (big(x.shadow()), big((-x).shadow()));
            if b < a {
                (true, b)
            } else {
                (false, a)
            }
        };
        let num = |x: Fp| -> String {
            let (neg, m) = dec(x);
            let d = decimal(&m);
            if neg {
                format!("(- {})", d)
            } else {
                d
            }
        };
        let mut s = String::from("(set-logic QF_LIA)\n");
        for v in &take {
            let top = if *v == TARGET { p.to_string() } else { digits[(*v - base) as usize].to_string() };
            s += &format!("(declare-const {} Int)\n(assert (and (<= 0 {}) (< {} {})))\n", name(*v), name(*v), name(*v), top);
        }
        let mut nm = 0;
        for (i, e) in rel.iter().enumerate() {
            if !used[i] {
                continue;
            }
            // scaled so that the coefficients are small
            let (_, k) = e.iter().filter(|(v, _)| **v != u32::MAX).map(|(_, c)| c.invert().unwrap()).map(|k| (e.values().map(|c| dec(*c * k).1).max().unwrap(), key(k), k)).min_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1))).map(|x| (x.0, x.2)).unwrap();
            let terms: Vec<String> = e.iter().map(|(v, c)| if *v == u32::MAX { num(*c * k) } else { format!("(* {} {})", num(*c * k), name(*v)) }).collect();
            s += &format!("(declare-const m{} Int)\n(assert (= (+ 0 {}) (* m{} {})))\n", nm, terms.join(" "), nm, p);
            nm += 1;
        }
        let lim = {
            let mut b = [0u8; 33];
            b[32 - bits as usize / 8] = 1 << (bits % 8);
            decimal(&b)
        };
        let q = format!("{}(assert (>= t {}))\n(check-sat)\n", s, lim);
        let (r, dt) = run_z3("z3-new", &q, 120);
        self.solver_s += dt;
        self.queries.push((format!("below 2^{}", bits), r.clone()));
        if r != "unsat" {
            return Ok(false);
        }
        // the relations are not contradictory
        let q = format!("{}(assert (= (+ t 1) {}))\n(check-sat)\n", s, lim);
        let (r, dt) = run_z3("z3-new", &q, 120);
        self.solver_s += dt;
        self.queries.push((format!("reaches 2^{}-1", bits), r.clone()));
        if r != "sat" {
            return Err(Dead(format!("2^{} - 1 is out of reach: {}", bits, r)));
        }
        Ok(true)
    }
    pub fn deduce(&mut self, st: &mut State, depth: u32) -> Result<(), Dead> {
        loop {
            if st.val.iter().all(|v| v.is_some()) {
                return Ok(());
            }
            if self.digits(st, depth)? {
                continue;
            }
            if self.probe(st, depth)? {
                continue;
            }
            return Ok(());
        }
    }
    /// The values the constraints force, given the inputs.
    pub fn forced(&mut self, targets: &[u32]) -> Result<Vec<Option<Fp>>, Dead> {
        let mut st = self.start();
        self.propagate(&mut st, None)?;
        for depth in 1..=2 {
            if targets.iter().all(|t| st.val[*t as usize].is_some()) {
                break;
            }
            self.deduce(&mut st, depth)?;
        }
        Ok(targets.iter().map(|t| st.val[*t as usize]).collect())
    }
    /// A satisfying assignment in which a target differs from the honest one.
    pub fn forge(&mut self, targets: &[u32], budget: &mut u32, rng: &mut dyn FnMut() -> Fp) -> Option<Vec<Fp>> {
        let mut st = self.start();
        self.propagate(&mut st, None).ok()?;
        let _ = self.deduce(&mut st, 1);
        let tries = FORGERIES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        self.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(if tries < 2 { 100 } else { 15 }));
        let ts = self.alternatives(&st);
        if let Some(r) = self.other(ts, targets, rng) {
            return Some(r);
        }
        // one cell bent, the rest as honest as possible
        if !targets.is_empty() {
            // some cells of every kind
            let mut kinds: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
            let kind = self.kinds();
            for v in 0..self.s.nclass as u32 {
                if st.val[v as usize].is_none() && self.s.members[v as usize].iter().any(|m| matches!(m.0, At::A(_))) {
                    kinds.entry(kind[v as usize]).or_default().push(v);
                }
            }
            let mut order: Vec<u32> = vec![];
            for part in [(1usize, 2usize), (0, 1), (1, 1), (1, 4), (3, 4)] {
                for c in kinds.values() {
                    let v = c[(c.len() * part.0 / part.1).min(c.len() - 1)];
                    if !order.contains(&v) {
                        order.push(v);
                    }
                }
            }
            for v in order {
                let hon = self.s.honest[v as usize].unwrap_or_else(zero);
                let vals: Vec<Fp> = match st.cand.get(&v) {
                    Some(c) => c.iter().copied().filter(|x| *x != hon).take(3).collect(),
                    None => vec![hon + Fp::one(), rng()],
                };
                for x in vals {
                    if std::time::Instant::now() > self.deadline.unwrap() {
                        break;
                    }
                    let mut t = st.clone();
                    t.cand.remove(&v);
                    t.val[v as usize] = Some(x);
                    if self.propagate(&mut t, Some(vec![v])).is_err() {
                        continue;
                    }
                    if !self.all_digits(&mut t) {
                        continue;
                    }
                    let mut ts = self.alternatives(&t);
                    ts.push(t);
                    let t0 = std::time::Instant::now();
                    let r = self.other(ts, targets, rng);
                    if std::env::var("HV_BEND").is_ok() {
                        eprintln!("bend {:?} {:.2}s {}", self.s.members[v as usize][0], t0.elapsed().as_secs_f64(), r.is_some());
                    }
                    if r.is_some() {
                        return r;
                    }
                }
            }
        }
        self.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(20));
        self.forge_from(st, targets, budget, rng)
    }
    /// The outputs of another honest run, and as much of it as possible.
    fn graft(&mut self, targets: &[u32], alt: &[Option<Fp>], rng: &mut dyn FnMut() -> Fp) -> Option<Vec<Fp>> {
        let mut st = self.start();
        self.propagate(&mut st, None).ok()?;
        let _ = self.deduce(&mut st, 1);
        let open: Vec<u32> = targets.iter().copied().filter(|t| st.val[*t as usize].is_none()).collect();
        for t in &open {
            if let Some(x) = alt[*t as usize] {
                st.cand.remove(t);
                st.val[*t as usize] = Some(x);
            }
        }
        self.propagate(&mut st, Some(open)).ok()?;
        self.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(20));
        self.alt = Some(alt.to_vec());
        let r = self.other(vec![st], targets, rng);
        self.alt = None;
        r
    }
    fn other(&mut self, ts: Vec<State>, targets: &[u32], rng: &mut dyn FnMut() -> Fp) -> Option<Vec<Fp>> {
        for t in ts {
            if let Some(r) = self.complete(t, &[u32::MAX], rng) {
                if targets.is_empty() || targets.iter().any(|t| self.s.honest[*t as usize] != Some(r[*t as usize])) {
                    return Some(r);
                }
            }
        }
        None
    }
    /// Cells are of one kind if they lie in the same columns and the same gate polynomials look at them.
    fn kinds(&self) -> std::rc::Rc<Vec<u32>> {
        if let Some(k) = self.kind.borrow().as_ref() {
            return k.clone();
        }
        let mut ids: HashMap<(Vec<At>, Vec<(usize, usize)>), u32> = HashMap::new();
        let k: Vec<u32> = (0..self.s.nclass)
            .map(|v| {
                let mut cols: Vec<At> = self.s.members[v].iter().map(|m| m.0).collect();
                cols.sort();
                cols.dedup();
                let mut gates: Vec<(usize, usize)> = self.users[v].iter().map(|i| self.s.cons[*i].gate).collect();
                gates.sort();
                gates.dedup();
                let n = ids.len() as u32;
                *ids.entry((cols, gates)).or_insert(n)
            })
            .collect();
        let k = std::rc::Rc::new(k);
        *self.kind.borrow_mut() = Some(k.clone());
        k
    }
    /// Everything else, with honest values where possible.
    pub fn complete(&mut self, st: State, targets: &[u32], rng: &mut dyn FnMut() -> Fp) -> Option<Vec<Fp>> {
        // a cell without a value is chosen first the next time
        // (with all of its kind)
        let kind = self.kinds();
        let mut first: Vec<u32> = vec![];
        for _ in 0..12 {
            match self.complete_in(&first, &kind, st.clone(), targets, rng) {
                Ok(r) => return r,
                Err(v) if first.contains(&kind[v as usize]) => return None,
                Err(v) => first.push(kind[v as usize]),
            }
            if matches!(self.deadline, Some(d) if std::time::Instant::now() > d) {
                break;
            }
        }
        None
    }
    fn complete_in(&mut self, first: &[u32], kind: &[u32], mut st: State, targets: &[u32], rng: &mut dyn FnMut() -> Fp) -> Result<Option<Vec<Fp>>, u32> {
        let s = self.s;
        let first_choice = self.alt.clone().unwrap_or_else(|| s.honest.clone());
        let hon = |v: u32| first_choice[v as usize].unwrap_or_else(zero);
            let mut vs: Vec<(usize, bool, usize, u32, u32)> = (0..s.nclass as u32)
                .map(|v| {
                    let m = &s.members[v as usize];
                    let at = m.iter().filter_map(|m| if let At::A(c) = m.0 { Some((m.1, c as u32)) } else { None }).min().unwrap_or((0, 0));
                    (first.iter().position(|x| *x == kind[v as usize]).unwrap_or(usize::MAX), m.iter().any(|m| matches!(m.0, At::I(_))), at.0, at.1, v)
                })
                .collect();
            vs.sort();
            for (_, _, _, _, v) in vs {
                if st.val[v as usize].is_some() {
                    continue;
                }
                let big = |r: &Fp| key(*r).iter().rev().copied().collect::<Vec<u8>>();
                let mut tries: Vec<Fp> = match st.cand.get(&v) {
                    Some(c) => c.clone(),
                    None => {
                        // digits of what is known
                        let mut t = vec![hon(v), zero(), rng(), s.honest[v as usize].unwrap_or_else(zero)];
                        for i in &self.lusers[v as usize] {
                            let l = &self.s.looks[*i];
                            for (j, p) in l.inputs.iter().enumerate() {
                                let p = self.reduce(p, &st);
                                let n = match self.s.tables[l.table].span[j] {
                                    Some(n) if p.degree() == 1 && p.vars().len() == 1 => n,
                                    _ => continue,
                                };
                                let u = p.univariate(v);
                                let k = key(u[0]);
                                let low = u64::from_le_bytes(k[0..8].try_into().unwrap());
                                for d in [low % n, 0, n - 1] {
                                    t.push((Fp::from(d) - u[0]) * u[1].invert().unwrap());
                                }
                            }
                        }
                        t
                    }
                };
                tries.sort_by_key(|x| big(x));
                if !targets.is_empty() {
                    if let Some(i) = tries.iter().position(|x| *x == hon(v)) {
                        let h = tries.remove(i);
                        tries.insert(0, h);
                    }
                }
                let mut ok = None;
                for x in tries {
                    let mut t = st.clone();
                    t.cand.remove(&v);
                    t.val[v as usize] = Some(x);
                    if self.propagate(&mut t, Some(vec![v])).is_ok() {
                        ok = Some(t);
                        break;
                    }
                }
                st = match ok {
                    Some(t) => t,
                    None => return Err(v),
                };
            }
        let v: Vec<Fp> = st.val.iter().map(|x| x.unwrap()).collect();
        if self.s.violated(&|c| v[c as usize]).is_none() {
            Ok(Some(v))
        } else {
            Ok(None)
        }
    }
    fn forge_from(&mut self, st: State, targets: &[u32], budget: &mut u32, rng: &mut dyn FnMut() -> Fp) -> Option<Vec<Fp>> {
        if *budget == 0 || self.deadline.map(|d| std::time::Instant::now() > d).unwrap_or(false) {
            return None;
        }
        *budget -= 1;
        let differs = |st: &State| targets.iter().any(|t| matches!((st.val[*t as usize], self.s.honest[*t as usize]), (Some(a), Some(b)) if a != b));
        let hon = |v: u32| self.s.honest[v as usize].unwrap_or_else(zero);
        if differs(&st) || targets.iter().all(|t| st.val[*t as usize].is_some()) {
            if !differs(&st) && !targets.is_empty() {
                return None;
            }
            return self.complete(st, targets, rng);
        }
        // a target to bend, or a cell that decides it
        let mut order: Vec<u32> = targets.iter().copied().filter(|t| st.val[*t as usize].is_none()).collect();
        let mut cs: Vec<u32> = st.cand.keys().copied().collect();
        cs.sort();
        order.extend(cs);
        // then the unknowns of constraints, in reverse and forward order
        let un: Vec<u32> = (0..self.s.nclass as u32).filter(|v| st.val[*v as usize].is_none() && self.s.members[*v as usize].iter().any(|m| matches!(m.0, At::A(_)))).collect();
        let m = un.len();
        for i in 0..m.min(24) {
            order.push(un[i * m / m.min(24)]);
        }
        for v in order {
            if *budget == 0 {
                return None;
            }
            let vals: Vec<Fp> = match st.cand.get(&v) {
                Some(c) => c.iter().copied().filter(|x| *x != hon(v)).collect(),
                None => vec![hon(v) + Fp::one(), -hon(v), zero(), rng()].into_iter().filter(|x| *x != hon(v)).collect(),
            };
            for x in vals {
                let mut t = st.clone();
                t.cand.remove(&v);
                t.val[v as usize] = Some(x);
                if self.propagate(&mut t, Some(vec![v])).is_err() {
                    continue;
                }
                if let Some(r) = self.forge_from(t, targets, budget, rng) {
                    return Some(r);
                }
            }
        }
        None
    }
}
/// big-endian bytes in decimal
fn decimal(b: &[u8]) -> String {
    let mut d = vec![0u32];
    for x in b {
        let mut c = *x as u32;
        for y in d.iter_mut() {
            let t = *y * 256 + c;
            *y = t % 10;
            c = t / 10;
        }
        while c > 0 {
            d.push(c % 10);
            c /= 10;
        }
    }
    d.iter().rev().map(|x| x.to_string()).collect()
}
fn small(x: Fp) -> Option<u64> {
    let r = key(x);
    if r[8..].iter().any(|b| *b != 0) {
        return None;
    }
    Some(u64::from_le_bytes(r[..8].try_into().unwrap()))
}
fn pow2(x: Fp) -> Option<u32> {
    let r = key(x);
    if r.iter().map(|b| b.count_ones()).sum::<u32>() != 1 {
        return None;
    }
    let i = r.iter().position(|b| *b != 0).unwrap();
    Some(i as u32 * 8 + r[i].trailing_zeros())
}
/// a factor that turns the values into consecutive ones, starting at zero if possible
fn progression(v: &[Fp]) -> Option<Fp> {
    if v.len() < 2 {
        return None;
    }
    let mut best = None;
    for y in &v[1..] {
        for t in [(*y - v[0]).invert().unwrap(), (v[0] - *y).invert().unwrap()] {
            let s: Vec<Fp> = v.iter().map(|x| *x * t).collect();
            if let Some((off, _)) = run(&s) {
                if off == zero() {
                    return Some(t);
                }
                best = best.or(Some(t));
            }
        }
    }
    best
}
/// values that are -o, 1-o, .., n-1-o
fn run(v: &[Fp]) -> Option<(Fp, u64)> {
    let n = v.len() as u64;
    let set: HashSet<[u8; 32]> = v.iter().map(|x| key(*x)).collect();
    v.iter().find(|s| (0..n).all(|i| set.contains(&key(**s + Fp::from(i))))).map(|s| (-*s, n))
}
/// digits of a number, largest weight first
fn decode(x: Fp, terms: &[(u32, Fp, u64)]) -> Vec<Vec<(u32, Fp)>> {
    let mut all = vec![];
    let mut t: Vec<(u32, u32, u64)> = terms.iter().map(|x| (pow2(x.1).unwrap(), x.0, x.2)).collect();
    t.sort();
    t.reverse();
    // 512-bit arithmetic: the value, or the value plus the modulus
    let mut limbs = [0u64; 5];
    for (i, b) in key(x).iter().enumerate() {
        limbs[i / 8] |= (*b as u64) << (8 * (i % 8));
    }
    let p = {
        let m = key(-Fp::one());
        let mut l = [0u64; 5];
        for (i, b) in m.iter().enumerate() {
            l[i / 8] |= (*b as u64) << (8 * (i % 8));
        }
        l[0] += 1;
        l
    };
    // sums are below 2^(254 + 6): see `unique`
    for m in 0..=64u64 {
        let mut v = limbs;
        for _ in 0..m {
            let mut c = 0u128;
            for i in 0..5 {
                let s = v[i] as u128 + p[i] as u128 + c;
                v[i] = s as u64;
                c = s >> 64;
            }
        }
        let mut out = vec![];
        for (e, id, n) in &t {
            // v >> e
            let sh = |v: &[u64; 5], e: u32| -> Option<u64> {
                let (w, b) = ((e / 64) as usize, e % 64);
                let mut r = 0u128;
                for i in (w..5).rev() {
                    if i - w < 2 {
                        r |= (v[i] as u128) << (64 * (i - w));
                    } else if v[i] != 0 {
                        return None;
                    }
                }
                let r = r >> b;
                if r > u64::MAX as u128 {
                    None
                } else {
                    Some(r as u64)
                }
            };
            let d = sh(&v, *e).unwrap_or(u64::MAX).min(n - 1);
            out.push((*id, Fp::from(d)));
            // v -= d << e
            let (w, b) = ((*e / 64) as usize, *e % 64);
            let mut s = [0u64; 6];
            let dd = (d as u128) << b;
            if w < 5 {
                s[w] = dd as u64;
                s[w + 1] = (dd >> 64) as u64;
            }
            let mut borrow = 0i128;
            for i in 0..5 {
                let x = v[i] as i128 - s[i] as i128 - borrow;
                borrow = (x < 0) as i128;
                v[i] = (x + (borrow << 64)) as u64;
            }
        }
        if v == [0; 5] {
            all.push(out);
        }
    }
    all
}

// ---------------------------------------------------------------- replay in the real mock prover
lazy_static::lazy_static! { static ref EV: Mutex<(Vec<Ev>, (usize, usize, usize, usize))> = Mutex::new((vec![], (0, 0, 0, 0))); }
struct Replay<G>(std::marker::PhantomData<G>);
impl<G: Gadget> Circuit<Fp> for Replay<G> {
    type Config = G::Config;
    type FloorPlanner = Planner;
    fn without_witnesses(&self) -> Self {
        Replay(self.0)
    }
    fn configure(m: &mut ConstraintSystem<Fp>) -> G::Config {
        let c = G::configure(m);
        let v = verif::cs_view(m);
        EV.lock().unwrap_or_else(|e| e.into_inner()).1 = (v.num_advice, v.num_fixed, v.num_instance, v.num_selectors);
        c
    }
    fn synthesize(&self, _: G::Config, _: impl Layouter<Fp>) -> Result<(), Error> {
        unreachable!()
    }
}
struct Planner;
fn cast<X: 'static, Y: 'static + Clone>(x: &X) -> Y {
    (x as &dyn StdAny).downcast_ref::<Y>().unwrap().clone()
}
impl FloorPlanner for Planner {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(cs: &mut CS, _: &C, _: C::Config, _: Vec<Column<Fixed>>) -> Result<(), Error> {
        use halo2_proofs::circuit::Value;
        let (ev, (a, f, i, s)) = EV.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let mut m = ConstraintSystem::<Fp>::default();
        let adv: Vec<_> = (0..a).map(|_| m.advice_column()).collect();
        let fix: Vec<_> = (0..f).map(|_| m.fixed_column()).collect();
        let ins: Vec<_> = (0..i).map(|_| m.instance_column()).collect();
        let sel: Vec<_> = (0..s).map(|_| m.complex_selector()).collect();
        let any = |x: At| -> Column<Any> {
            match x {
                At::A(i) => adv[i].into(),
                At::F(i) => fix[i].into(),
                At::I(i) => ins[i].into(),
                At::S(_) => unreachable!(),
            }
        };
        let val = |v: &Option<Assigned<Fp>>| -> Value<Assigned<F>> {
            match v {
                Some(v) => Value::known(cast::<_, Assigned<F>>(v)),
                None => Value::unknown(),
            }
        };
        for e in &ev {
            match e {
                Ev::Enter(n) => cs.enter_region(|| n.clone()),
                Ev::Exit => cs.exit_region(),
                Ev::Push(n) => cs.push_namespace(|| n.clone()),
                Ev::Pop => cs.pop_namespace(None),
                Ev::Set(At::A(c), r, v) => cs.assign_advice(|| "", adv[*c], *r, || val(v))?,
                Ev::Set(At::F(c), r, v) => cs.assign_fixed(|| "", fix[*c], *r, || val(v))?,
                Ev::Set(At::S(c), r, _) => cs.enable_selector(|| "", &sel[*c], *r)?,
                Ev::Set(At::I(_), _, _) => {}
                Ev::Copy(a, b) => cs.copy(any(a.0), a.1, any(b.0), b.1)?,
                Ev::Fill(c, r, v) => cs.fill_from_row(fix[*c], *r, val(v))?,
            }
        }
        Ok(())
    }
}
/// Does the real mock prover accept these events with these instance values?
pub fn mock<G: Gadget + 'static>(k: u32, ev: Vec<Ev>, inst: Vec<Vec<Fp>>) -> Result<(), String> {
    EV.lock().unwrap_or_else(|e| e.into_inner()).0 = ev;
    let p = MockProver::run(k, &Replay::<G>(std::marker::PhantomData), inst).map_err(|e| format!("{:?}", e))?;
    p.verify().map_err(|e| format!("{} failures, first: {}", e.len(), format!("{:?}", e[0]).chars().take(300).collect::<String>()))
}
/// the events with the advice cells replaced
pub fn bend(ev: &[Ev], s: &Sys, v: &[Fp]) -> (Vec<Ev>, BTreeMap<usize, Fp>) {
    let mut ev = ev.to_vec();
    let mut seen = HashSet::new();
    for e in ev.iter_mut() {
        if let Ev::Set(At::A(c), r, x) = e {
            seen.insert((*c, *r));
            if let Some(cl) = s.class.get(&(At::A(*c), *r)) {
                *x = Some(Assigned::Trivial(v[*cl as usize]));
            }
        }
    }
    // cells the honest prover leaves alone
    let mut inst = BTreeMap::new();
    for (at, cl) in &s.class {
        match at.0 {
            At::A(c) if !seen.contains(&(c, at.1)) => ev.push(Ev::Set(At::A(c), at.1, Some(Assigned::Trivial(v[*cl as usize])))),
            At::I(0) => {
                inst.insert(at.1, v[*cl as usize]);
            }
            _ => {}
        }
    }
    (ev, inst)
}
pub struct Verdict {
    pub forced: bool,
    pub forged: Option<String>,
    pub note: String,
}
/// Checks a gadget whose instance column 0 holds `inputs` inputs followed by outputs, at the given instance.
/// The honest run must satisfy everything; every other satisfying assignment must have the same outputs.
pub fn decide<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, inputs: usize) {
    decide_with(cx, name, g, k, vec![inst], inputs, true)
}
pub fn decide_with<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Vec<Fp>>, inputs: usize, unique: bool) {
    let outs = (inputs..inst[0].len()).collect();
    decide_rows(cx, name, g, k, inst, (0..inputs).collect(), outs, unique, None, &[])
}
/// As `decide`, for any given rows and rows that have to follow from them.
pub fn order<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, given: Vec<usize>, outs: Vec<usize>) {
    decide_rows(cx, name, g, k, vec![inst], given, outs, true, None, &[])
}
/// A defect that is on record: `cells` names the cells a prover may choose although it should not be able to. The outputs
/// have to follow once those have their honest values.
pub struct Finding<'a> {
    pub key: &'a str,
    pub what: &'a str,
    pub cells: &'a dyn Fn(&Sys, &State) -> Vec<u32>,
}
/// As `decide`, apart from a defect on record.
pub fn decide_known<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, inputs: usize, f: Finding) {
    let outs = (inputs..inst.len()).collect();
    decide_rows(cx, name, g, k, vec![inst], (0..inputs).collect(), outs, true, Some(f), &[])
}
/// As `decide_given`; the honest runs `alts` suggest forgeries, should the outputs not follow.
pub fn decide_alts<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, inputs: usize, cells: &dyn Fn(&Sys, &State) -> Vec<u32>, alts: &[(G, Vec<Fp>)]) {
    let outs = (inputs..inst.len()).collect();
    decide_rows(cx, name, g, k, vec![inst], (0..inputs).collect(), outs, true, Some(Finding { key: "", what: "", cells }), alts)
}
/// As `decide`, with the cells `cells` names given as well.
pub fn decide_given<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, inputs: usize, cells: &dyn Fn(&Sys, &State) -> Vec<u32>) {
    decide_known(cx, name, g, k, inst, inputs, Finding { key: "", what: "", cells })
}
/// Unknown advice cells kept equal by gate polynomials, as sets, largest first, whose honest value is `x`.
pub fn chains(s: &Sys, st: &State, x: Fp) -> Vec<Vec<u32>> {
    let mut p: HashMap<u32, u32> = HashMap::new();
    fn root(p: &HashMap<u32, u32>, mut v: u32) -> u32 {
        while p[&v] != v {
            v = p[&v];
        }
        v
    }
    for v in 0..s.nclass as u32 {
        if st.val[v as usize].is_none() && s.honest[v as usize] == Some(x) && !s.members[v as usize].is_empty() && s.members[v as usize].iter().all(|m| matches!(m.0, At::A(_))) {
            p.insert(v, v);
        }
    }
    for c in &s.cons {
        let vs: Vec<u32> = c.p.vars().into_iter().collect();
        if vs.len() == 2 && c.p.degree() == 1 && c.p.0.len() == 2 && c.p.coef(&vec![(vs[0], 1)]) == -c.p.coef(&vec![(vs[1], 1)]) && vs.iter().all(|v| p.contains_key(v)) {
            let (a, b) = (root(&p, vs[0]), root(&p, vs[1]));
            p.insert(a, b);
        }
    }
    let mut sets: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for v in p.keys() {
        sets.entry(root(&p, *v)).or_default().push(*v);
    }
    let mut r: Vec<Vec<u32>> = sets.into_values().collect();
    r.sort_by_key(|x| std::cmp::Reverse(x.len()));
    r
}
fn decide_rows<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Vec<Fp>>, given: Vec<usize>, rows: Vec<usize>, unique: bool, finding: Option<Finding>, alts: &[(G, Vec<Fp>)]) {
    let known = finding.as_ref().map_or(false, |f| f.key.is_empty() || cx.listed(f.key));
    let mut hit = None;
    analyse(cx, name, &mut |_: &mut Cx| {
        let mut o = Out { goals: rows.len() as u64, ..Out::default() };
        let l = match lay(g, inst.clone()) {
            Ok(l) => l,
            Err(e) => return Out { bad: Some(format!("the gadget refuses valid inputs: {:?}", e)), ..o },
        };
        let mut s = Sys::new(&l, k, 0);
        for r in &given {
            if let Some(c) = s.inst(*r) {
                match s.known[c as usize] {
                    Some(x) if x != inst[0][*r].shadow() => s.conflict = Some(format!("row {} cannot have its value", r)),
                    _ => s.known[c as usize] = Some(inst[0][*r].shadow()),
                }
            }
        }
        o.cons = s.cons.len() + s.looks.len();
        if let Err(e) = mock::<G>(k, l.rec.ev.clone(), inst.clone()) {
            return Out { bad: Some(format!("the honest assignment is refused: {}", e)), ..o };
        }
        if let Some(v) = s.honest_violation() {
            return Out { unsure: Some(format!("the extracted constraints disagree with the mock prover: {}", v)), ..o };
        }
        if !unique {
            return o;
        }
        let outs: Vec<u32> = rows.iter().filter_map(|r| s.inst(*r)).collect();
        if outs.len() != rows.len() {
            return Out { unsure: Some("an output is not part of the circuit".into()), ..o };
        }
        if let (true, Some(f)) = (known, &finding) {
            let tied = {
                let mut q = Search::new(&s);
                let mut st = q.start();
                let open = q.propagate(&mut st, None).and_then(|_| q.deduce(&mut st, 1)).is_ok() && outs.iter().any(|t| st.val[*t as usize].is_none());
                let cells = if open { (f.cells)(&s, &st) } else { vec![] };
                if !cells.is_empty() && !f.key.is_empty() {
                    // the defect itself, against the real mock prover: some chosen cell bent
                    let mut seed = 7u64;
                    let mut rng = || {
                        seed += 1;
                        Fp::from(seed.wrapping_mul(0x9e3779b97f4a7c15) % 0xffff_ffff_ffff)
                    };
                    for v in &cells {
                        let mut t = st.clone();
                        t.cand.remove(v);
                        t.val[*v as usize] = s.honest[*v as usize].map(|x| x + Fp::one());
                        if q.propagate(&mut t, Some(vec![*v])).is_err() {
                            continue;
                        }
                        if let Some(v) = q.complete(t, &[u32::MAX], &mut rng) {
                            let (ev, iv) = bend(&l.rec.ev, &s, &v);
                            let mut fi = inst.clone();
                            for (r, x) in iv {
                                if r < fi[0].len() {
                                    fi[0][r] = x;
                                }
                            }
                            if fi[0] != inst[0] && mock::<G>(k, ev, fi).is_ok() {
                                hit = Some(f.what.to_string());
                                break;
                            }
                        }
                    }
                }
                o.steps += q.steps;
                cells
            };
            for c in tied {
                s.known[c as usize] = s.honest[c as usize];
            }
        }
        let s = s;
        let mut q = Search::new(&s);
        match q.forced(&outs) {
            Err(d) => o.unsure = Some(format!("the constraints contradict the honest assignment: {}", d.0)),
            Ok(v) if v.iter().all(|x| x.is_some()) => {
                if v.iter().zip(&outs).any(|(x, o)| *x != s.honest[*o as usize]) {
                    o.unsure = Some("forced outputs differ from the honest ones".to_string());
                }
            }
            Ok(v) => {
                let free = v.iter().position(|x| x.is_none()).unwrap();
                let mut seed = 1u64;
                let mut rng = || {
                    seed += 1;
                    Fp::from(seed.wrapping_mul(0x9e3779b97f4a7c15) % 0xffff_ffff_ffff)
                };
                let mut budget = 3000;
                let mut found = None;
                for (g, i) in alts {
                    if let Ok(a) = lay(g, vec![i.clone()]) {
                        let a = Sys::new(&a, k, 0);
                        if a.members == s.members {
                            found = q.graft(&outs, &a.honest, &mut rng);
                        }
                    }
                    if found.is_some() {
                        break;
                    }
                }
                match found.or_else(|| q.forge(&outs, &mut budget, &mut rng)) {
                    None => o.unsure = Some(format!("output {} is not determined by propagation, and no forgery was found", free)),
                    Some(v) => {
                        let (ev, iv) = bend(&l.rec.ev, &s, &v);
                        let mut fi = inst.clone();
                        for (r, x) in iv {
                            if r < fi[0].len() {
                                fi[0][r] = x;
                            }
                        }
                        match mock::<G>(k, ev, fi.clone()) {
                            Ok(()) => {
                                o.bad = Some(format!(
                                    "the constraints accept outputs {:?} where the gadget computes {:?}",
                                    rows.iter().map(|r| fi[0][*r].shadow()).collect::<Vec<_>>(),
                                    rows.iter().map(|r| inst[0][*r].shadow()).collect::<Vec<_>>()
                                ))
                            }
                            Err(e) => o.unsure = Some(format!("output {} is not determined, but the forgery is refused: {}", free, e)),
                        }
                    }
                }
            }
        }
        o.of(&q)
    });
    if let Some(w) = hit {
        cx.known(&w);
    }
}
/// The circuit laid out for `inst` must refuse the inputs `bad`, whatever the prover puts in the advice cells.
pub fn refuse<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, bad: Vec<Fp>) {
    analyse(cx, name, &mut |_: &mut Cx| {
        let l = match lay(g, vec![inst.clone()]) {
            Ok(l) => l,
            Err(e) => return Out { bad: Some(format!("the gadget refuses valid inputs: {:?}", e)), ..Out::default() },
        };
        let mut s = Sys::new(&l, k, 0);
        for (r, x) in bad.iter().enumerate() {
            if let Some(c) = s.inst(r) {
                if matches!(s.known[c as usize], Some(o) if o != *x) {
                    // copies of unequal cells
                    return Out { cons: s.cons.len() + s.looks.len(), goals: 1, ..Out::default() };
                }
                s.known[c as usize] = Some(*x);
            }
        }
        let mut o = Out { cons: s.cons.len() + s.looks.len(), goals: 1, ..Out::default() };
        let mut q = Search::new(&s);
        let none: Vec<u32> = (0..s.nclass as u32).collect();
        if q.forced(&none).is_ok() {
            let mut seed = 1u64;
            let mut rng = || {
                seed += 1;
                Fp::from(seed.wrapping_mul(0x9e3779b97f4a7c15) % 0xffff_ffff_ffff)
            };
            let mut budget = 3000;
            match q.forge(&[], &mut budget, &mut rng) {
                None => o.unsure = Some("no contradiction was derived, and no forgery was found".into()),
                Some(v) => {
                    let (ev, iv) = bend(&l.rec.ev, &s, &v);
                    let mut fi = inst.clone();
                    for (r, x) in iv {
                        if r < fi.len() {
                            fi[r] = x;
                        }
                    }
                    match mock::<G>(k, ev, vec![fi.clone()]) {
                        Ok(()) => o.bad = Some(format!("the constraints accept the inputs {:?}", bad.iter().map(|x| x.shadow()).collect::<Vec<_>>())),
                        Err(e) => o.unsure = Some(format!("no contradiction was derived, but the forgery is refused: {}", e)),
                    }
                }
            }
        }
        o.of(&q)
    });
}
/// Every satisfying assignment keeps instance row `row` below 2^bits.
pub fn bounded<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, inputs: usize, row: usize, bits: u32) {
    analyse(cx, name, &mut |_: &mut Cx| {
        let l = match lay(g, vec![inst.clone()]) {
            Ok(l) => l,
            Err(e) => return Out { bad: Some(format!("the gadget refuses valid inputs: {:?}", e)), ..Out::default() },
        };
        let s = Sys::new(&l, k, inputs);
        let mut o = Out { cons: s.cons.len() + s.looks.len(), goals: 1, ..Out::default() };
        let t = match s.inst(row) {
            Some(t) => t,
            None => return Out { unsure: Some("the cell is not part of the circuit".into()), ..o },
        };
        let mut q = Search::new(&s);
        match q.below(t, bits) {
            Ok(true) => {}
            Ok(false) => {
                // a value out of range that is accepted?
                let mut found = false;
                for x in over(bits) {
                    let mut s2 = Sys::new(&l, k, inputs);
                    s2.known[t as usize] = Some(x);
                    let mut q2 = Search::new(&s2);
                    let mut seed = 1u64;
                    let mut rng = || {
                        seed += 1;
                        Fp::from(seed.wrapping_mul(0x9e3779b97f4a7c15) % 0xffff_ffff_ffff)
                    };
                    let mut budget = 300;
                    if let Some(v) = q2.forge(&[], &mut budget, &mut rng) {
                        let (ev, iv) = bend(&l.rec.ev, &s2, &v);
                        let mut fi = inst.clone();
                        for (r, x) in iv {
                            if r < fi.len() {
                                fi[r] = x;
                            }
                        }
                        if mock::<G>(k, ev, vec![fi]).is_ok() {
                            o.bad = Some(format!("the constraints accept {:?}, which is not below 2^{}", x, bits));
                            found = true;
                            break;
                        }
                    }
                }
                if !found {
                    o.unsure = Some(format!("the constraints do not keep the value below 2^{}, and no forgery was found", bits));
                }
            }
            Err(e) => o.unsure = Some(e.0),
        }
        o.of(&q)
    });
}
/// values of 2^bits and more
fn over(bits: u32) -> Vec<Fp> {
    let two = Fp::from(2);
    let p = |e: u32| (0..e).fold(Fp::one(), |a, _| a * two);
    let mut v = vec![p(bits), p(bits) + Fp::one(), -Fp::one(), p(bits).invert().unwrap(), -p(bits), two.invert().unwrap()];
    for e in bits + 1..(bits + 12).min(254) {
        v.push(p(e) - Fp::one());
        v.push(p(e));
    }
    v.push(p(250) + p(100) + Fp::from(12345));
    v.retain(|x| key(*x).iter().enumerate().any(|(i, b)| (0..8).any(|j| b >> j & 1 == 1 && 8 * i as u32 + j >= bits)));
    v
}
#[derive(Default)]
struct Out {
    bad: Option<String>,
    unsure: Option<String>,
    cons: usize,
    steps: u64,
    goals: u64,
    queries: Vec<(String, String)>,
    solver: f64,
}
impl Out {
    fn of(mut self, q: &Search) -> Self {
        self.steps = q.steps;
        self.queries = q.queries.clone();
        self.solver = q.solver_s;
        self
    }
}
fn analyse(cx: &mut Cx, name: &str, f: &mut dyn FnMut(&mut Cx) -> Out) {
    if let Some(o) = cx.only.clone() {
        if o != name {
            return;
        }
    } else if !cx.violations.is_empty() {
        return;
    }
    let t0 = std::time::Instant::now();
    let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(cx))) {
        Ok(o) => o,
        Err(_) => Out { bad: Some(format!("panic: {}", last_panic())), ..Out::default() },
    };
    cx.st.cases += 1;
    cx.systems.0 += 1;
    cx.systems.1 += o.steps;
    cx.systems.2 += t0.elapsed().as_secs_f64();
    if cx.systems.0 % 16 == 1 && cx.samples.len() < 8 {
        cx.samples.push(format!("{}: {} constraints, {} steps, {} z3 queries", name, o.cons, o.steps, o.queries.len()));
    }
    cx.st.queries += o.queries.len() as u64;
    cx.st.solver_s += o.solver;
    cx.st.facts += o.cons as u64;
    cx.st.obligations += o.goals;
    if o.bad.is_none() && o.unsure.is_none() {
        cx.st.discharged += o.goals;
    }
    if std::env::var("HV_VERBOSE").is_ok() {
        eprintln!("  {:50} constraints {} steps {} queries {} {:.2}s {}", name, o.cons, o.steps, o.queries.len(), t0.elapsed().as_secs_f64(), o.unsure.clone().or(o.bad.clone()).unwrap_or_default());
    }
    if let Some(e) = o.unsure {
        cx.inconclusive.push(format!("{}: {}", name, e));
    }
    if let Some(e) = o.bad {
        cx.report(name, &e);
    }
}
/// Outputs other than the specified ones must be refused by the real mock prover, and the specified ones accepted.
pub fn expect<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, ok: bool) {
    let l = match lay(g, vec![inst.clone()]) {
        Ok(l) => l,
        Err(e) => {
            if ok {
                cx.report(name, &format!("{:?}", e));
            }
            return;
        }
    };
    let r = mock::<G>(k, l.rec.ev, vec![inst]);
    if r.is_ok() != ok {
        cx.report(name, &format!("accepted: {}, wanted {}", r.is_ok(), ok));
    }
}
/// The honest assignment over free inputs satisfies every gate, and the cells tied to the instance column hold what `inst` says.
/// Lookup inputs that depend on free inputs are left out.
pub fn honest<G: Gadget + 'static>(h: &mut H, g: &G, k: u32, inst: Vec<Fp>) {
    let l = match lay(g, vec![inst.clone()]) {
        Ok(l) => l,
        Err(e) => {
            h.ok(&format!("synthesis {:?}", e), false);
            return;
        }
    };
    let n = 1usize << k;
    let usable = n - (l.cs.blinding_factors() + 1);
    let c = cells(&l.rec, usable);
    h.ok("rows", c.rows <= usable);
    let val = |at: At, row: usize| match at {
        At::I(0) => inst.get(row).copied().unwrap_or_else(zero),
        At::I(_) => zero(),
        _ => c.val.get(&(at, row)).copied().flatten().unwrap_or_else(zero),
    };
    for (name, ps) in verif::gates(&l.cs).iter() {
        for (i, p) in ps.iter().enumerate() {
            for row in 0..(c.rows + 2).min(usable) {
                if alive(p, row, n, &c) {
                    let v = eval(p, row, n, &c.sel, &|k| k, &|a, r| val(a, r), &|a, b| a + b, &|a, b| a * b);
                    h.sweep(&format!("{}[{}] row {}", name, i, row), v, zero());
                }
            }
        }
    }
    for (a, b) in &c.copies {
        h.sweep(&format!("copy {:?} {:?}", a, b), val(a.0, a.1), val(b.0, b.1));
    }
}

/// Whatever the inputs are, the gates leave one value for each output: starting from the inputs and the constants, cells are
/// determined by systems of gate polynomials in which the remaining unknowns appear only linearly, with constant coefficients.
pub fn functional<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, inst: Vec<Fp>, inputs: usize) {
    analyse(cx, name, &mut |_: &mut Cx| {
        let mut o = Out { goals: (inst.len() - inputs) as u64, ..Out::default() };
        let l = match lay(g, vec![inst.clone()]) {
            Ok(l) => l,
            Err(e) => return Out { bad: Some(format!("the gadget refuses valid inputs: {:?}", e)), ..o },
        };
        let s = Sys::new(&l, k, 0);
        o.cons = s.cons.len();
        let mut det: BTreeSet<u32> = (0..inputs).filter_map(|r| s.inst(r)).collect();
        if det.len() != inputs || det.iter().any(|v| s.known[*v as usize].is_some()) {
            return Out { unsure: Some("an input is not a free part of the circuit".into()), ..o };
        }
        let polys: Vec<Poly> = s
            .cons
            .iter()
            .map(|c| c.p.vars().into_iter().fold(c.p.clone(), |p, v| match s.known[v as usize] {
                Some(x) => p.subst(v, x),
                None => p,
            }))
            .collect();
        det.extend((0..s.nclass as u32).filter(|v| s.known[*v as usize].is_some()));
        let mut live: Vec<usize> = (0..polys.len()).collect();
        loop {
            o.steps += 1;
            let mut rows: Vec<BTreeMap<u32, Fp>> = vec![];
            live.retain(|i| polys[*i].vars().iter().any(|v| !det.contains(v)));
            for i in &live {
                let mut row = BTreeMap::new();
                let lin = polys[*i].0.iter().all(|(m, c)| {
                    if m.iter().all(|(v, _)| det.contains(v)) {
                        return true;
                    }
                    if m.len() == 1 && m[0].1 == 1 {
                        row.insert(m[0].0, *c);
                        return true;
                    }
                    false
                });
                if lin {
                    rows.push(row);
                }
            }
            let mut done: Vec<(u32, BTreeMap<u32, Fp>)> = vec![];
            for mut r in rows {
                for (pv, pr) in &done {
                    if let Some(c) = r.get(pv).copied() {
                        for (v, x) in pr {
                            let e = r.entry(*v).or_insert_with(zero);
                            *e = *e - c * x;
                        }
                        r.retain(|_, x| *x != zero());
                    }
                }
                if let Some((pv, c)) = r.iter().next().map(|(v, c)| (*v, *c)) {
                    let ci = c.invert().unwrap();
                    for x in r.values_mut() {
                        *x = *x * ci;
                    }
                    for (_, pr) in done.iter_mut() {
                        if let Some(c) = pr.get(&pv).copied() {
                            for (v, x) in &r {
                                let e = pr.entry(*v).or_insert_with(zero);
                                *e = *e - c * x;
                            }
                            pr.retain(|_, x| *x != zero());
                        }
                    }
                    done.push((pv, r));
                }
            }
            let new: Vec<u32> = done.iter().filter(|(_, r)| r.len() == 1).map(|(v, _)| *v).collect();
            if new.is_empty() {
                break;
            }
            det.extend(new);
        }
        for r in inputs..inst.len() {
            match s.inst(r) {
                Some(c) if det.contains(&c) => {}
                _ => {
                    o.unsure = Some(format!("output {} is not determined for all inputs", r - inputs));
                    break;
                }
            }
        }
        o
    });
}
