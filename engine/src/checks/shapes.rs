//! Circuits described by data: configuration, assignments and copies, with independent references.
use ff::Field;
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use pasta_curves::Fp;
use std::any::Any as StdAny;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum E {
    C(u64),
    A(usize, i32),
    F(usize),
    I(usize, i32),
    S(usize),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Neg(Box<E>),
    Scale(Box<E>, u64),
}
pub fn c(x: u64) -> E {
    E::C(x)
}
pub fn a(x: usize, r: i32) -> E {
    E::A(x, r)
}
pub fn f(x: usize) -> E {
    E::F(x)
}
pub fn i(x: usize, r: i32) -> E {
    E::I(x, r)
}
pub fn s(x: usize) -> E {
    E::S(x)
}
impl std::ops::Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E::Add(Box::new(self), Box::new(o))
    }
}
impl std::ops::Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E::Sub(Box::new(self), Box::new(o))
    }
}
impl std::ops::Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E::Mul(Box::new(self), Box::new(o))
    }
}
impl std::ops::Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E::Neg(Box::new(self))
    }
}
impl E {
    pub fn scale(self, k: u64) -> E {
        E::Scale(Box::new(self), k)
    }
    pub fn degree(&self) -> usize {
        match self {
            E::C(_) => 0,
            E::A(..) | E::F(_) | E::I(..) | E::S(_) => 1,
            E::Add(a, b) | E::Sub(a, b) => a.degree().max(b.degree()),
            E::Mul(a, b) => a.degree() + b.degree(),
            E::Neg(a) | E::Scale(a, _) => a.degree(),
        }
    }
    pub fn visit(&self, f: &mut dyn FnMut(&E)) {
        f(self);
        match self {
            E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
                a.visit(f);
                b.visit(f)
            }
            E::Neg(a) | E::Scale(a, _) => a.visit(f),
            _ => {}
        }
    }
    /// value given the leaves
    pub fn eval(&self, leaf: &dyn Fn(&E) -> Fp) -> Fp {
        match self {
            E::C(x) => Fp::from(*x),
            E::Add(a, b) => a.eval(leaf) + b.eval(leaf),
            E::Sub(a, b) => a.eval(leaf) - b.eval(leaf),
            E::Mul(a, b) => a.eval(leaf) * b.eval(leaf),
            E::Neg(a) => -a.eval(leaf),
            E::Scale(a, k) => a.eval(leaf) * Fp::from(*k),
            _ => leaf(self),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Col {
    A(usize),
    F(usize),
    I(usize),
}
#[derive(Clone, Debug, Default)]
pub struct Shape {
    pub name: &'static str,
    pub k: u32,
    pub na: usize,
    pub nf: usize,
    pub ni: usize,
    /// true = simple
    pub sel: Vec<bool>,
    /// fixed columns (indices nf..) holding lookup tables
    pub tables: usize,
    pub gates: Vec<Vec<E>>,
    pub lookups: Vec<Vec<(E, usize)>>,
    pub equality: Vec<Col>,
    pub constants: Vec<usize>,
    pub min_degree: Option<usize>,
    pub fixed: Vec<(usize, usize, Assigned<Fp>)>,
    pub enable: Vec<(usize, usize)>,
    pub copies: Vec<((Col, usize), (Col, usize))>,
    /// per table column
    pub table: Vec<Vec<Fp>>,
}
/// advice assignments of one circuit
pub type Wit = Vec<(usize, usize, Assigned<Fp>)>;

#[derive(Default)]
struct Cur {
    shape: Arc<Shape>,
    wits: Vec<Wit>,
    next: usize,
}
lazy_static::lazy_static! { static ref CUR: Mutex<Cur> = Mutex::new(Cur::default()); }
fn cur<R>(f: impl FnOnce(&mut Cur) -> R) -> R {
    f(&mut CUR.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn current_shape() -> Arc<Shape> {
    cur(|c| c.shape.clone())
}
pub fn set_shape(s: &Shape) {
    cur(|c| {
        c.shape = Arc::new(s.clone());
        c.wits.clear();
        c.next = 0;
    })
}
/// advice values used by the following syntheses, in order (none: unknown values)
pub fn set_wits(w: Vec<Wit>) {
    cur(|c| {
        c.wits = w;
        c.next = 0;
    })
}
#[derive(Clone, Copy, Default)]
pub struct Circ;
#[derive(Clone)]
pub struct Cfg {
    pub a: Vec<Column<Advice>>,
    pub f: Vec<Column<Fixed>>,
    pub i: Vec<Column<Instance>>,
    pub s: Vec<Selector>,
    pub t: Vec<TableColumn>,
}
pub fn build<F: Field + From<u64>>(e: &E, m: &mut VirtualCells<'_, F>, c: &Cfg) -> Expression<F> {
    match e {
        E::C(x) => Expression::Constant(F::from(*x)),
        E::A(x, r) => m.query_advice(c.a[*x], Rotation(*r)),
        E::F(x) => m.query_fixed(c.f[*x]),
        E::I(x, r) => m.query_instance(c.i[*x], Rotation(*r)),
        E::S(x) => m.query_selector(c.s[*x]),
        E::Add(x, y) => {
            let x = build(x, m, c);
            x + build(y, m, c)
        }
        E::Sub(x, y) => {
            let x = build(x, m, c);
            x - build(y, m, c)
        }
        E::Mul(x, y) => {
            let x = build(x, m, c);
            x * build(y, m, c)
        }
        E::Neg(x) => -build(x, m, c),
        E::Scale(x, k) => build(x, m, c) * F::from(*k),
    }
}
fn any(c: &Cfg, x: Col) -> Column<Any> {
    match x {
        Col::A(i) => c.a[i].into(),
        Col::F(i) => c.f[i].into(),
        Col::I(i) => c.i[i].into(),
    }
}
pub fn configure(sh: &Shape, meta: &mut ConstraintSystem<Fp>) -> Cfg {
    let mut cfg = Cfg {
        a: (0..sh.na).map(|_| meta.advice_column()).collect(),
        f: (0..sh.nf).map(|_| meta.fixed_column()).collect(),
        i: (0..sh.ni).map(|_| meta.instance_column()).collect(),
        s: vec![],
        t: vec![],
    };
    for simple in &sh.sel {
        cfg.s.push(if *simple { meta.selector() } else { meta.complex_selector() });
    }
    for _ in 0..sh.tables {
        cfg.t.push(meta.lookup_table_column());
    }
    for e in &sh.equality {
        meta.enable_equality(any(&cfg, *e));
    }
    for e in &sh.constants {
        meta.enable_constant(cfg.f[*e]);
    }
    for g in &sh.gates {
        meta.create_gate("g", |m| g.iter().map(|e| build(e, m, &cfg)).collect::<Vec<_>>());
    }
    for l in &sh.lookups {
        meta.lookup(|m| l.iter().map(|(e, t)| (build(e, m, &cfg), cfg.t[*t])).collect());
    }
    if let Some(d) = sh.min_degree {
        meta.set_minimum_degree(d);
    }
    cfg
}
impl Circuit<Fp> for Circ {
    type Config = Cfg;
    type FloorPlanner = Direct;
    fn without_witnesses(&self) -> Self {
        *self
    }
    fn configure(meta: &mut ConstraintSystem<Fp>) -> Cfg {
        let sh = cur(|c| c.shape.clone());
        configure(&sh, meta)
    }
    fn synthesize(&self, _: Cfg, _: impl Layouter<Fp>) -> Result<(), Error> {
        unreachable!()
    }
}
/// A floor planner that performs exactly the shape's assignments, at absolute rows.
pub struct Direct;
fn cast<X: 'static, Y: 'static + Clone>(x: &X) -> Y {
    (x as &dyn StdAny).downcast_ref::<Y>().expect("the circuits here are over Fp").clone()
}
impl FloorPlanner for Direct {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(
        cs: &mut CS,
        _: &C,
        config: C::Config,
        _: Vec<Column<Fixed>>,
    ) -> Result<(), Error> {
        let _ = config;
        let (sh, wit) = cur(|c| {
            let w = c.wits.get(c.next).cloned();
            c.next += 1;
            (c.shape.clone(), w)
        });
        // column handles are positional
        let mut meta = ConstraintSystem::<Fp>::default();
        let cfg = configure(&sh, &mut meta);
        cs.enter_region(|| "region");
        for (s, r) in &sh.enable {
            cs.enable_selector(|| "s", &cfg.s[*s], *r)?;
        }
        for (c, r, v) in &sh.fixed {
            cs.assign_fixed(|| "f", cfg.f[*c], *r, || Value::known(cast::<_, Assigned<F>>(v)))?;
        }
        if let Some(w) = wit {
            for (c, r, v) in &w {
                cs.assign_advice(|| "a", cfg.a[*c], *r, || Value::known(cast::<_, Assigned<F>>(v)))?;
            }
        } else {
            for c in 0..sh.na {
                cs.assign_advice(|| "a", cfg.a[c], 0, || Value::<Assigned<F>>::unknown())?;
            }
        }
        cs.exit_region();
        for (l, r) in &sh.copies {
            cs.copy(any(&cfg, l.0), l.1, any(&cfg, r.0), r.1)?;
        }
        for (t, vals) in sh.table.iter().enumerate() {
            let col = halo2_proofs::verif::table_inner(cfg.t[t]);
            for (r, v) in vals.iter().enumerate() {
                let v: Assigned<Fp> = (*v).into();
                cs.assign_fixed(|| "t", col, r, || Value::known(cast::<_, Assigned<F>>(&v)))?;
            }
            let v: Assigned<Fp> = vals[0].into();
            cs.fill_from_row(col, vals.len(), Value::known(cast::<_, Assigned<F>>(&v)))?;
        }
        Ok(())
    }
}
#[allow(dead_code)]
pub type Planner = SimpleFloorPlanner;

impl Shape {
    /// distinct advice queries of each column, in order of first use
    pub fn queries(&self) -> (Vec<(usize, i32)>, Vec<usize>, Vec<(usize, i32)>) {
        let (mut qa, mut qf, mut qi) = (vec![], vec![], vec![]);
        fn put<T: PartialEq>(v: &mut Vec<T>, x: T) {
            if !v.contains(&x) {
                v.push(x)
            }
        }
        for e in &self.equality {
            match e {
                Col::A(x) => put(&mut qa, (*x, 0)),
                Col::F(x) => put(&mut qf, *x),
                Col::I(x) => put(&mut qi, (*x, 0)),
            }
        }
        for x in &self.constants {
            put(&mut qf, *x)
        }
        let mut see = |e: &E| match e {
            E::A(x, r) => put(&mut qa, (*x, *r)),
            E::F(x) => put(&mut qf, *x),
            E::I(x, r) => put(&mut qi, (*x, *r)),
            _ => {}
        };
        for g in &self.gates {
            for e in g {
                e.visit(&mut see);
            }
        }
        for l in &self.lookups {
            for (e, _) in l {
                e.visit(&mut see);
            }
            for (_, t) in l {
                see(&E::F(self.nf + *t));
            }
        }
        (qa, qf, qi)
    }
    pub fn permutation(&self) -> Vec<Col> {
        let mut v: Vec<Col> = vec![];
        for x in self.equality.iter().copied().chain(self.constants.iter().map(|c| Col::F(*c))) {
            if !v.contains(&x) {
                v.push(x)
            }
        }
        v
    }
    pub fn degree(&self) -> usize {
        let mut d = 3;
        for g in &self.gates {
            for e in g {
                d = d.max(e.degree());
            }
        }
        for l in &self.lookups {
            let i = l.iter().map(|x| x.0.degree()).max().unwrap_or(1).max(1);
            d = d.max(2 + i + 1).max(4);
        }
        d.max(self.min_degree.unwrap_or(1))
    }
    pub fn blinding(&self) -> usize {
        let (qa, _, _) = self.queries();
        let m = if self.na == 0 { 1 } else { (0..self.na).map(|c| qa.iter().filter(|q| q.0 == c).count()).max().unwrap() };
        m.max(3) + 2
    }
    pub fn usable(&self) -> usize {
        (1 << self.k) - self.blinding() - 1
    }
    /// contents of the circuit's own fixed columns (tables included)
    pub fn fixed_values(&self) -> Vec<Vec<Fp>> {
        let n = 1usize << self.k;
        let mut v = vec![vec![Fp::zero(); n]; self.nf + self.tables];
        for (c, r, x) in &self.fixed {
            v[*c][*r] = x.evaluate();
        }
        for (t, vals) in self.table.iter().enumerate() {
            for r in 0..self.usable() {
                v[self.nf + t][r] = *vals.get(r).unwrap_or(&vals[0]);
            }
        }
        v
    }
}

fn ap(x: u64) -> Assigned<Fp> {
    Fp::from(x).into()
}
/// The shapes used by the protocol checks.
pub fn shapes() -> Vec<Shape> {
    let mut v = vec![];
    v.push(Shape { name: "empty", k: 3, ..Default::default() });
    v.push(Shape {
        name: "bool",
        k: 3,
        na: 1,
        nf: 1,
        gates: vec![vec![f(0) * a(0, 0) * (a(0, 0) - c(1))]],
        fixed: vec![(0, 0, ap(1)), (0, 1, ap(3))],
        ..Default::default()
    });
    v.push(Shape {
        name: "plonk",
        k: 3,
        na: 3,
        nf: 4,
        ni: 1,
        gates: vec![vec![
            a(0, 0) * f(0) + a(1, 0) * f(1) + a(0, 0) * a(1, 0) * f(2) - a(2, 0) * f(3) - i(0, 0),
        ]],
        equality: vec![Col::A(0), Col::A(1), Col::A(2), Col::I(0)],
        fixed: vec![(2, 0, ap(1)), (3, 0, ap(1)), (0, 1, ap(2)), (1, 1, Assigned::Rational(Fp::from(1), Fp::from(2))), (3, 1, ap(1))],
        copies: vec![((Col::A(2), 0), (Col::A(0), 1)), ((Col::A(1), 0), (Col::A(1), 1))],
        ..Default::default()
    });
    v.push(Shape {
        name: "rot",
        k: 4,
        na: 2,
        ni: 1,
        sel: vec![true, false],
        gates: vec![
            vec![s(0) * (a(0, 0) + a(0, 1) - a(0, 2)), s(0) * (a(0, -1) - a(1, 0))],
            vec![s(1) * (a(1, -2) * a(1, 0) - i(0, -1).scale(3)), (s(1) - c(1)) * s(1)],
        ],
        enable: vec![(0, 1), (0, 2), (1, 3)],
        ..Default::default()
    });
    v.push(Shape {
        name: "lookup",
        k: 4,
        na: 1,
        sel: vec![false],
        tables: 1,
        lookups: vec![vec![(s(0) * a(0, 0), 0)]],
        enable: vec![(0, 0), (0, 1)],
        table: vec![vec![Fp::zero(), Fp::from(7)]],
        ..Default::default()
    });
    v.push(Shape {
        name: "lookup2",
        k: 4,
        na: 2,
        nf: 1,
        sel: vec![false],
        tables: 3,
        gates: vec![vec![f(0) * (a(0, 0) - a(1, 1))]],
        lookups: vec![vec![(s(0) * a(0, 0), 0), (s(0) * a(1, 0) + (c(1) - s(0)) * c(5), 1)], vec![(a(0, 1) * f(0), 2)]],
        equality: vec![Col::A(1)],
        enable: vec![(0, 0), (0, 2)],
        fixed: vec![(0, 1, ap(1))],
        table: vec![vec![Fp::zero(), Fp::from(3), Fp::from(4)], vec![Fp::from(5), Fp::from(9), Fp::from(16)], vec![Fp::zero(), Fp::from(4)]],
        copies: vec![((Col::A(1), 0), (Col::A(1), 3))],
        ..Default::default()
    });
    v.push(Shape {
        name: "wideperm",
        k: 3,
        na: 4,
        nf: 1,
        ni: 1,
        equality: vec![Col::A(3), Col::A(0), Col::I(0), Col::A(2), Col::F(0)],
        gates: vec![vec![f(0) * (a(0, 0) - a(1, 0))]],
        fixed: vec![(0, 0, ap(6))],
        copies: vec![((Col::A(3), 0), (Col::A(0), 1)), ((Col::A(0), 1), (Col::I(0), 1)), ((Col::F(0), 0), (Col::A(2), 1)), ((Col::A(2), 0), (Col::A(2), 0))],
        ..Default::default()
    });
    v.push(Shape {
        name: "chunks",
        k: 3,
        na: 4,
        nf: 1,
        equality: vec![Col::A(0), Col::A(1), Col::A(2), Col::A(3)],
        constants: vec![0],
        min_degree: Some(4),
        gates: vec![vec![a(1, 0) - a(1, 0)]],
        fixed: vec![(0, 0, ap(11))],
        copies: vec![((Col::A(0), 0), (Col::A(3), 1)), ((Col::F(0), 0), (Col::A(1), 0)), ((Col::A(2), 0), (Col::A(1), 0)), ((Col::A(2), 1), (Col::A(3), 0))],
        ..Default::default()
    });
    v.push(Shape {
        name: "deg6",
        k: 3,
        na: 2,
        ni: 2,
        sel: vec![true],
        gates: vec![vec![s(0) * (a(0, 0) * a(0, 0) * a(0, 0) * a(0, 0) * a(1, 0) - i(1, 0))]],
        equality: vec![Col::I(0), Col::A(1)],
        enable: vec![(0, 0)],
        copies: vec![((Col::A(1), 0), (Col::I(0), 0))],
        ..Default::default()
    });
    v
}
