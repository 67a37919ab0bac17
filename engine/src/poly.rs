//! Terms -> integer polynomial SMT obligations modulo the field characteristic.
use ff::{Field, PrimeField};
use pasta_curves::sym::{with_dag, Node, Op};
use pasta_curves::{RawFp, RawFq};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Limbs = [u64; 4];

/// canonical big-endian-decimal of a 256-bit little-endian integer
pub fn dec(mut v: [u64; 4]) -> String {
    let mut digits: Vec<u64> = vec![];
    while v != [0; 4] {
        let mut rem: u128 = 0;
        for i in (0..4).rev() {
            let cur = (rem << 64) | v[i] as u128;
            v[i] = (cur / 10_000_000_000_000_000_000u128) as u64;
            rem = cur % 10_000_000_000_000_000_000u128;
        }
        digits.push(rem as u64);
    }
    match digits.pop() {
        None => "0".into(),
        Some(d) => {
            let mut s = d.to_string();
            for d in digits.iter().rev() {
                s += &format!("{:019}", d);
            }
            s
        }
    }
}
pub fn canon_limbs(field: u8, m: Limbs) -> [u64; 4] {
    let r = repr(field, m);
    let mut o = [0u64; 4];
    for i in 0..4 {
        o[i] = u64::from_le_bytes(r[8 * i..8 * i + 8].try_into().unwrap());
    }
    o
}
pub fn repr(field: u8, m: Limbs) -> [u8; 32] {
    if field == 0 {
        RawFp::from_limbs(m).to_repr()
    } else {
        RawFq::from_limbs(m).to_repr()
    }
}
pub fn modulus_dec(field: u8) -> &'static str {
    if field == 0 {
        "28948022309329048855892746252171976963363056481941560715954676764349967630337"
    } else {
        "28948022309329048855892746252171976963363056481941647379679742748393362948097"
    }
}
fn modulus_limbs(field: u8) -> [u64; 4] {
    if field == 0 {
        [0x992d30ed00000001, 0x224698fc094cf91b, 0, 0x4000000000000000]
    } else {
        [0x8c46eb2100000001, 0x224698fc0994a8dd, 0, 0x4000000000000000]
    }
}
/// decimal SMT literal, negative when that is shorter
pub fn lit(field: u8, m: Limbs) -> String {
    let c = canon_limbs(field, m);
    if c[3] > 0x2000000000000000 {
        let p = modulus_limbs(field);
        let mut r = [0u64; 4];
        let mut borrow = 0i128;
        for i in 0..4 {
            let d = p[i] as i128 - c[i] as i128 - borrow;
            if d < 0 {
                r[i] = (d + (1i128 << 64)) as u64;
                borrow = 1;
            } else {
                r[i] = d as u64;
                borrow = 0;
            }
        }
        if r[3] < 0x1000000000000000 || true {
            return format!("(- {})", dec(r));
        }
    }
    dec(c)
}

pub trait RawField: PrimeField<Repr = [u8; 32]> {
    fn of(l: Limbs) -> Self;
    fn limbs(&self) -> Limbs;
}
impl RawField for RawFp {
    fn of(l: Limbs) -> Self {
        RawFp::from_limbs(l)
    }
    fn limbs(&self) -> Limbs {
        self.limbs_raw()
    }
}
impl RawField for RawFq {
    fn of(l: Limbs) -> Self {
        RawFq::from_limbs(l)
    }
    fn limbs(&self) -> Limbs {
        self.limbs_raw()
    }
}

/// One term from its operands' values.
pub fn step(n: &Node, a: Limbs, b: Limbs) -> Limbs {
    fn op<F: RawField>(n: &Node, a: Limbs, b: Limbs) -> Limbs {
        let (a, b) = (F::of(a), F::of(b));
        match n.op {
            Op::Add => a + b,
            Op::Sub => a - b,
            Op::Mul => a * b,
            Op::Neg => -a,
            Op::Inv => a.invert().unwrap_or(F::ZERO),
            Op::Sqrt => a.sqrt().unwrap_or(F::of(n.val)),
            _ => unreachable!(),
        }
        .limbs()
    }
    if n.field == 0 {
        op::<RawFp>(n, a, b)
    } else {
        op::<RawFq>(n, a, b)
    }
}
/// Evaluates the term table under the assignment (unassigned variables keep their shadow).
pub fn eval_nodes(nodes: &[Node], assign: &HashMap<u32, Limbs>, upto: usize) -> Vec<Limbs> {
    let mut out: Vec<Limbs> = Vec::with_capacity(upto);
    for (i, n) in nodes.iter().enumerate().take(upto) {
        let v = match n.op {
            Op::Const => n.val,
            Op::Var => *assign.get(&(i as u32)).unwrap_or(&n.val),
            _ => {
                let (a, b) = (out[n.a as usize], out[n.b as usize]);
                step(n, a, b)
            }
        };
        out.push(v);
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Var(u32),
    Const(Limbs),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Neg(u32),
}

/// A sum of monomials over atoms, sorted by monomial id.
type Sum = Vec<(u32, Limbs)>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Atom {
    Var(u32),
    /// a sum with several terms and leading coefficient one, used as a factor
    Sum(Sum),
}

/// Normal forms (sums of Laurent monomials over atoms) and the division-free arena they are emitted from.
pub struct Arena {
    pub field: u8,
    pub ps: Vec<P>,
    cons: HashMap<P, u32>,
    nodes: Vec<Node>,
    atoms: Vec<Atom>,
    atom_ids: HashMap<Atom, u32>,
    monos: Vec<Vec<(u32, i32)>>,
    mono_ids: HashMap<Vec<(u32, i32)>, u32>,
    nf: HashMap<u32, std::rc::Rc<Sum>>,
    fr_atom: HashMap<u32, (u32, BTreeMap<u32, u32>)>,
    /// terms treated as opaque variables
    pub sqrt_vars: BTreeSet<u32>,
    /// emit sum atoms as variables instead of expanding them
    pub opaque: bool,
}
/// variable numbers of opaque atoms
const OPAQUE: u32 = 1 << 31;

impl Arena {
    pub fn new(field: u8) -> Self {
        let nodes = with_dag(|d| d.nodes.clone());
        Arena {
            field,
            ps: vec![],
            cons: HashMap::new(),
            nodes,
            atoms: vec![],
            atom_ids: HashMap::new(),
            monos: vec![vec![]],
            mono_ids: std::iter::once((vec![], 0)).collect(),
            nf: HashMap::new(),
            fr_atom: HashMap::new(),
            sqrt_vars: BTreeSet::new(),
            opaque: false,
        }
    }
    fn f_op(&self, op: Op, a: Limbs, b: Limbs) -> Limbs {
        fn go<F: RawField>(op: Op, a: Limbs, b: Limbs) -> Limbs {
            let (a, b) = (F::of(a), F::of(b));
            match op {
                Op::Add => a + b,
                Op::Sub => a - b,
                Op::Mul => a * b,
                Op::Neg => -a,
                Op::Inv => a.invert().unwrap_or(F::ZERO),
                _ => unreachable!(),
            }
            .limbs()
        }
        if self.field == 0 {
            go::<RawFp>(op, a, b)
        } else {
            go::<RawFq>(op, a, b)
        }
    }
    fn one(&self) -> Limbs {
        if self.field == 0 {
            RawFp::ONE.limbs()
        } else {
            RawFq::ONE.limbs()
        }
    }
    fn atom(&mut self, a: Atom) -> u32 {
        if let Some(i) = self.atom_ids.get(&a) {
            return *i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.atom_ids.insert(a, i);
        i
    }
    fn mono(&mut self, m: Vec<(u32, i32)>) -> u32 {
        if let Some(i) = self.mono_ids.get(&m) {
            return *i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(m.clone());
        self.mono_ids.insert(m, i);
        i
    }
    fn scale_sum(&self, s: &Sum, c: Limbs) -> Sum {
        if c == [0; 4] {
            return vec![];
        }
        s.iter().map(|(m, x)| (*m, self.f_op(Op::Mul, *x, c))).collect()
    }
    fn add_sum(&self, a: &Sum, b: &Sum) -> Sum {
        let (mut i, mut j) = (0, 0);
        let mut o = Vec::with_capacity(a.len() + b.len());
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                o.push(a[i]);
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                o.push(b[j]);
                j += 1;
            } else {
                let c = self.f_op(Op::Add, a[i].1, b[j].1);
                if c != [0; 4] {
                    o.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        o
    }
    /// coefficient and monomial of a non-zero sum seen as a product
    fn as_term(&mut self, s: &Sum) -> (Limbs, Vec<(u32, i32)>) {
        if s.len() == 1 {
            return (s[0].1, self.monos[s[0].0 as usize].clone());
        }
        let lead = s[0].1;
        let il = self.f_op(Op::Inv, lead, lead);
        let monic = self.scale_sum(s, il);
        let a = self.atom(Atom::Sum(monic));
        (lead, vec![(a, 1)])
    }
    /// a lone sum atom is the sum itself
    fn term(&mut self, c: Limbs, m: Vec<(u32, i32)>) -> Sum {
        if let [(a, 1)] = m[..] {
            if let Atom::Sum(s) = &self.atoms[a as usize] {
                let s = s.clone();
                return self.scale_sum(&s, c);
            }
        }
        let id = self.mono(m);
        vec![(id, c)]
    }
    fn mul_sum(&mut self, a: &Sum, b: &Sum) -> Sum {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        if a.len() == 1 && a[0].0 == 0 {
            return self.scale_sum(b, a[0].1);
        }
        if b.len() == 1 && b[0].0 == 0 {
            return self.scale_sum(a, b[0].1);
        }
        let (ca, ma) = self.as_term(a);
        let (cb, mb) = self.as_term(b);
        let mut m: BTreeMap<u32, i32> = ma.into_iter().collect();
        for (x, e) in mb {
            *m.entry(x).or_insert(0) += e;
        }
        let m: Vec<(u32, i32)> = m.into_iter().filter(|x| x.1 != 0).collect();
        let c = self.f_op(Op::Mul, ca, cb);
        self.term(c, m)
    }
    fn inv_sum(&mut self, a: &Sum) -> Sum {
        if a.is_empty() {
            return vec![];
        }
        let (c, m) = self.as_term(a);
        let c = self.f_op(Op::Inv, c, c);
        let m = m.into_iter().map(|(x, e)| (x, -e)).collect();
        self.term(c, m)
    }
    fn minus_one(&self) -> Limbs {
        self.f_op(Op::Neg, self.one(), [0; 4])
    }
    fn norm(&mut self, t: u32) -> std::rc::Rc<Sum> {
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.nf.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            assert_eq!(n.field, self.field);
            let kids: Vec<u32> = match n.op {
                Op::Var | Op::Const | Op::Sqrt => vec![],
                Op::Neg | Op::Inv => vec![n.a],
                _ => vec![n.a, n.b],
            };
            let todo: Vec<u32> = kids.iter().filter(|k| !self.nf.contains_key(k)).copied().collect();
            if !todo.is_empty() {
                stack.extend(todo);
                continue;
            }
            let one = self.one();
            let m1 = self.minus_one();
            let r = match n.op {
                Op::Var | Op::Sqrt => {
                    if n.op == Op::Sqrt {
                        self.sqrt_vars.insert(x);
                    }
                    let a = self.atom(Atom::Var(x));
                    let m = self.mono(vec![(a, 1)]);
                    vec![(m, one)]
                }
                Op::Const => {
                    if n.val == [0; 4] {
                        vec![]
                    } else {
                        vec![(0, n.val)]
                    }
                }
                Op::Neg => {
                    let a = self.nf[&n.a].clone();
                    self.scale_sum(&a, m1)
                }
                Op::Add => {
                    let (a, b) = (self.nf[&n.a].clone(), self.nf[&n.b].clone());
                    self.add_sum(&a, &b)
                }
                Op::Sub => {
                    let (a, b) = (self.nf[&n.a].clone(), self.nf[&n.b].clone());
                    let b = self.scale_sum(&b, m1);
                    self.add_sum(&a, &b)
                }
                Op::Mul => {
                    let (a, b) = (self.nf[&n.a].clone(), self.nf[&n.b].clone());
                    self.mul_sum(&a, &b)
                }
                Op::Inv => {
                    let a = self.nf[&n.a].clone();
                    self.inv_sum(&a)
                }
            };
            self.nf.insert(x, std::rc::Rc::new(r));
        }
        self.nf[&t].clone()
    }
    fn mk(&mut self, p: P) -> u32 {
        if let Some(i) = self.cons.get(&p) {
            return *i;
        }
        let i = self.ps.len() as u32;
        self.ps.push(p);
        self.cons.insert(p, i);
        i
    }
    fn cst(&mut self, l: Limbs) -> u32 {
        self.mk(P::Const(l))
    }
    fn mul(&mut self, a: u32, b: u32) -> u32 {
        let one = self.one();
        if self.ps[a as usize] == P::Const(one) {
            return b;
        }
        if self.ps[b as usize] == P::Const(one) {
            return a;
        }
        self.mk(P::Mul(a.min(b), a.max(b)))
    }
    fn scale(&mut self, mut n: u32, d: &BTreeMap<u32, u32>) -> u32 {
        for (f, k) in d {
            for _ in 0..*k {
                n = self.mul(n, *f);
            }
        }
        n
    }
    fn missing(l: &BTreeMap<u32, u32>, d: &BTreeMap<u32, u32>) -> BTreeMap<u32, u32> {
        l.iter()
            .filter_map(|(f, k)| {
                let h = d.get(f).copied().unwrap_or(0);
                if *k > h {
                    Some((*f, k - h))
                } else {
                    None
                }
            })
            .collect()
    }
    /// numerator and denominator factors of an atom
    fn frac_atom(&mut self, a: u32) -> (u32, BTreeMap<u32, u32>) {
        if let Some(r) = self.fr_atom.get(&a) {
            return r.clone();
        }
        let r = match self.atoms[a as usize].clone() {
            Atom::Var(v) => (self.mk(P::Var(v)), BTreeMap::new()),
            Atom::Sum(s) => {
                if self.opaque {
                    (self.mk(P::Var(OPAQUE | a)), BTreeMap::new())
                } else {
                    self.frac_sum(&s)
                }
            }
        };
        self.fr_atom.insert(a, r.clone());
        r
    }
    fn frac_sum(&mut self, s: &Sum) -> (u32, BTreeMap<u32, u32>) {
        let mut terms: Vec<(Limbs, u32, BTreeMap<u32, u32>)> = vec![];
        let one = self.one();
        let mut l: BTreeMap<u32, u32> = BTreeMap::new();
        for (m, c) in s.iter() {
            let mut num = self.cst(one);
            let mut den: BTreeMap<u32, u32> = BTreeMap::new();
            for (a, e) in self.monos[*m as usize].clone() {
                let (n, d) = self.frac_atom(a);
                let k = e.unsigned_abs();
                if e > 0 {
                    for _ in 0..k {
                        num = self.mul(num, n);
                    }
                    for (f, x) in d {
                        *den.entry(f).or_insert(0) += x * k;
                    }
                } else {
                    // (n/d)^-k
                    *den.entry(n).or_insert(0) += k;
                    for (f, x) in d {
                        for _ in 0..x * k {
                            num = self.mul(num, f);
                        }
                    }
                }
            }
            for (f, k) in &den {
                let e = l.entry(*f).or_insert(0);
                *e = (*e).max(*k);
            }
            terms.push((*c, num, den));
        }
        let mut acc: Vec<u32> = vec![];
        for (c, num, den) in terms {
            let miss = Self::missing(&l, &den);
            let n = self.scale(num, &miss);
            let c = self.cst(c);
            acc.push(self.mul(c, n));
        }
        // balanced addition
        if acc.is_empty() {
            return (self.cst([0; 4]), BTreeMap::new());
        }
        while acc.len() > 1 {
            let v: Vec<u32> = acc.chunks(2).map(|x| if x.len() == 2 { self.mk(P::Add(x[0], x[1])) } else { x[0] }).collect();
            acc = v;
        }
        (acc[0], l)
    }

    /// numerator of a - b
    pub fn diff(&mut self, a: u32, b: u32) -> u32 {
        let m1 = self.minus_one();
        let (na, nb) = (self.norm(a), self.norm(b));
        let nb = self.scale_sum(&nb, m1);
        let d = self.add_sum(&na, &nb);
        // common factors of all terms do not matter
        let common: Vec<(u32, i32)> = match d.first() {
            None => vec![],
            Some((m, _)) => {
                let mut c: BTreeMap<u32, i32> = self.monos[*m as usize].iter().copied().collect();
                for (m, _) in &d[1..] {
                    let o: BTreeMap<u32, i32> = self.monos[*m as usize].iter().copied().collect();
                    let keys: BTreeSet<u32> = c.keys().chain(o.keys()).copied().collect();
                    c = keys
                        .into_iter()
                        .map(|k| (k, (*c.get(&k).unwrap_or(&0)).min(*o.get(&k).unwrap_or(&0))))
                        .filter(|x| x.1 != 0)
                        .collect();
                }
                c.into_iter().collect()
            }
        };
        let mut e: Sum = vec![];
        for (m, x) in d {
            let mut c: BTreeMap<u32, i32> = self.monos[m as usize].iter().copied().collect();
            for (a, k) in &common {
                *c.entry(*a).or_insert(0) -= k;
            }
            let m: Vec<(u32, i32)> = c.into_iter().filter(|x| x.1 != 0).collect();
            let t = self.term(x, m);
            e = self.add_sum(&e, &t);
        }
        self.frac_sum(&e).0
    }
    pub fn is_zero(&self, p: u32) -> bool {
        self.ps[p as usize] == P::Const([0; 4])
    }

    /// SMT definitions for everything reachable from the roots.
    pub fn emit(&self, roots: &[u32]) -> String {
        self.emit_with(roots, None)
    }
    /// With the variables fixed, and products reduced as they are formed.
    pub fn emit_at(&self, roots: &[u32], vals: &[Limbs]) -> String {
        self.emit_with(roots, Some(vals))
    }
    fn emit_with(&self, roots: &[u32], vals: Option<&[Limbs]>) -> String {
        let mut need = vec![false; self.ps.len()];
        let mut st: Vec<u32> = roots.to_vec();
        while let Some(x) = st.pop() {
            if std::mem::replace(&mut need[x as usize], true) {
                continue;
            }
            match self.ps[x as usize] {
                P::Add(a, b) | P::Sub(a, b) | P::Mul(a, b) => {
                    st.push(a);
                    st.push(b)
                }
                P::Neg(a) => st.push(a),
                _ => {}
            }
        }
        let mut s = String::new();
        use std::fmt::Write;
        for (i, p) in self.ps.iter().enumerate() {
            if !need[i] {
                continue;
            }
            match p {
                P::Var(v) if vals.is_some() => writeln!(s, "(define-fun t{} () Int {})", i, lit(self.field, vals.unwrap()[*v as usize])).unwrap(),
                P::Mul(a, b) if vals.is_some() => writeln!(s, "(define-fun t{} () Int (mod (* t{} t{}) {}))", i, a, b, modulus_dec(self.field)).unwrap(),
                P::Var(v) => {
                    writeln!(s, "(declare-fun v{} () Int)", v).unwrap();
                    writeln!(s, "(define-fun t{} () Int v{})", i, v).unwrap();
                }
                P::Const(c) => writeln!(s, "(define-fun t{} () Int {})", i, lit(self.field, *c)).unwrap(),
                P::Add(a, b) => writeln!(s, "(define-fun t{} () Int (+ t{} t{}))", i, a, b).unwrap(),
                P::Sub(a, b) => writeln!(s, "(define-fun t{} () Int (- t{} t{}))", i, a, b).unwrap(),
                P::Mul(a, b) => writeln!(s, "(define-fun t{} () Int (* t{} t{}))", i, a, b).unwrap(),
                P::Neg(a) => writeln!(s, "(define-fun t{} () Int (- t{}))", i, a).unwrap(),
            }
        }
        s
    }
    pub fn vars_of(&self, roots: &[u32]) -> BTreeSet<u32> {
        let mut need = vec![false; self.ps.len()];
        let mut st: Vec<u32> = roots.to_vec();
        let mut out = BTreeSet::new();
        while let Some(x) = st.pop() {
            if std::mem::replace(&mut need[x as usize], true) {
                continue;
            }
            match self.ps[x as usize] {
                P::Add(a, b) | P::Sub(a, b) | P::Mul(a, b) => {
                    st.push(a);
                    st.push(b)
                }
                P::Neg(a) => st.push(a),
                P::Var(v) => {
                    out.insert(v);
                }
                _ => {}
            }
        }
        out
    }
}
