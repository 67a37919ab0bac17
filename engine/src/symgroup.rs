//! A group whose elements are formal linear combinations of named generators
//! (coefficients are possibly-symbolic scalars), shadowed by a real Vesta point.
use ff::{Field, PrimeField};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding};
use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
use pasta_curves::{Eq as Ve, EqAffine as VeA, Fp, Fq};
use rand_core::RngCore;
use std::collections::{BTreeMap, HashMap};
use std::iter::Sum;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use std::sync::Mutex;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub type Lc = BTreeMap<u32, Fp>;

#[derive(Default)]
pub struct Tab {
    pub lcs: Vec<Lc>,
    pub gens: Vec<(String, Ve)>,
    pub by_name: HashMap<String, u32>,
    pub by_bytes: HashMap<[u8; 32], u32>,
    /// decisions "this combination is the identity"
    pub pcs: Vec<(u32, bool)>,
    /// the last element tested for being the identity
    pub last: Option<G>,
}
lazy_static::lazy_static! { static ref TAB: Mutex<Tab> = Mutex::new(Tab::default()); }

pub fn with_tab<R>(f: impl FnOnce(&mut Tab) -> R) -> R {
    let mut t = TAB.lock().unwrap_or_else(|e| e.into_inner());
    if t.lcs.is_empty() {
        t.lcs.push(Lc::new());
    }
    f(&mut t)
}
pub fn reset() {
    with_tab(|t| *t = Tab::default());
}

#[derive(Clone, Copy)]
pub struct G {
    pub p: Ve,
    pub lc: u32,
}
#[derive(Clone, Copy)]
pub struct GA {
    pub p: VeA,
    pub lc: u32,
}

fn sh(s: &Fp) -> Fp {
    s.shadow()
}
fn put(l: Lc) -> u32 {
    if l.is_empty() {
        return 0;
    }
    with_tab(|t| {
        t.lcs.push(l);
        t.lcs.len() as u32 - 1
    })
}
pub fn get(id: u32) -> Lc {
    with_tab(|t| t.lcs[id as usize].clone())
}
fn lin(a: u32, b: u32, neg: bool) -> u32 {
    if b == 0 {
        return a;
    }
    let mut l = get(a);
    for (g, c) in get(b) {
        let z = l.remove(&g).unwrap_or(Fp::zero());
        let s = if neg { z - c } else { z + c };
        if !is_const_zero(&s) {
            l.insert(g, s);
        }
    }
    put(l)
}
fn is_const_zero(s: &Fp) -> bool {
    s.t == 0 && bool::from(s.v.is_zero())
}
fn scale(a: u32, k: &Fp) -> u32 {
    if a == 0 || is_const_zero(k) {
        return 0;
    }
    let l = get(a);
    put(l.into_iter().map(|(g, c)| (g, c * k)).filter(|(_, c)| !is_const_zero(c)).collect())
}

/// The generator with this name (shadow point derived from the name).
pub fn gen_named(name: &str) -> G {
    let sh = Ve::hash_to_curve("hv-gen")(name.as_bytes());
    gen_with(name, sh)
}
pub fn gen_with(name: &str, p: Ve) -> G {
    let lc = with_tab(|t| {
        let g = match t.by_name.get(name) {
            Some(g) => *g,
            None => {
                let g = t.gens.len() as u32;
                t.gens.push((name.to_string(), p));
                t.by_name.insert(name.to_string(), g);
                g
            }
        };
        t.lcs.push([(g, Fp::one())].into_iter().collect());
        t.lcs.len() as u32 - 1
    });
    G { p, lc }
}
pub fn gen_name(g: u32) -> String {
    with_tab(|t| t.gens[g as usize].0.clone())
}

/// the last element tested for being the identity since the previous call
pub fn take_last() -> Option<G> {
    with_tab(|t| t.last.take())
}

impl G {
    pub fn coeffs(&self) -> Lc {
        get(self.lc)
    }
}
impl GA {
    pub fn coeffs(&self) -> Lc {
        get(self.lc)
    }
}

impl std::fmt::Debug for G {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.p.fmt(f)
    }
}
impl std::fmt::Debug for GA {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.p.fmt(f)
    }
}

fn decide(lc: u32, r: bool) {
    if lc == 0 {
        return;
    }
    // an all-constant, nonempty combination needs no condition in the free group
    if get(lc).values().any(|c| c.is_sym()) {
        with_tab(|t| t.pcs.push((lc, r)));
    }
}

macro_rules! common {
    ($t:ident) => {
        impl ConstantTimeEq for $t {
            fn ct_eq(&self, o: &Self) -> Choice {
                let r = self.p.ct_eq(&o.p);
                if self.lc != o.lc {
                    decide(lin(self.lc, o.lc, true), bool::from(r));
                }
                r
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                bool::from(self.ct_eq(o))
            }
        }
        impl Eq for $t {}
        impl ConditionallySelectable for $t {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $t {
                    p: ConditionallySelectable::conditional_select(&a.p, &b.p, c),
                    lc: if bool::from(c) { b.lc } else { a.lc },
                }
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $t { p: -self.p, lc: lin(0, self.lc, true) }
            }
        }
        impl<'a> Neg for &'a $t {
            type Output = $t;
            fn neg(self) -> $t {
                -*self
            }
        }
    };
}
common!(G);
common!(GA);

macro_rules! binop {
    ($l:ident, $r:ident) => {
        impl<'b> Add<&'b $r> for $l {
            type Output = G;
            fn add(self, o: &'b $r) -> G {
                self + *o
            }
        }
        impl Add<$r> for $l {
            type Output = G;
            fn add(self, o: $r) -> G {
                G { p: self.p + o.p, lc: lin(self.lc, o.lc, false) }
            }
        }
        impl<'b> Sub<&'b $r> for $l {
            type Output = G;
            fn sub(self, o: &'b $r) -> G {
                self - *o
            }
        }
        impl Sub<$r> for $l {
            type Output = G;
            fn sub(self, o: $r) -> G {
                G { p: self.p - o.p, lc: lin(self.lc, o.lc, true) }
            }
        }
    };
}
binop!(G, G);
binop!(G, GA);
binop!(GA, G);
binop!(GA, GA);
macro_rules! assignop {
    ($r:ident) => {
        impl AddAssign<$r> for G {
            fn add_assign(&mut self, o: $r) {
                *self = *self + o
            }
        }
        impl<'b> AddAssign<&'b $r> for G {
            fn add_assign(&mut self, o: &'b $r) {
                *self = *self + *o
            }
        }
        impl SubAssign<$r> for G {
            fn sub_assign(&mut self, o: $r) {
                *self = *self - o
            }
        }
        impl<'b> SubAssign<&'b $r> for G {
            fn sub_assign(&mut self, o: &'b $r) {
                *self = *self - *o
            }
        }
    };
}
assignop!(G);
assignop!(GA);
macro_rules! mulop {
    ($l:ident) => {
        impl Mul<Fp> for $l {
            type Output = G;
            fn mul(self, k: Fp) -> G {
                G { p: self.p * sh(&k), lc: scale(self.lc, &k) }
            }
        }
        impl<'b> Mul<&'b Fp> for $l {
            type Output = G;
            fn mul(self, k: &'b Fp) -> G {
                self * *k
            }
        }
    };
}
mulop!(G);
mulop!(GA);
impl MulAssign<Fp> for G {
    fn mul_assign(&mut self, k: Fp) {
        *self = *self * k
    }
}
impl<'b> MulAssign<&'b Fp> for G {
    fn mul_assign(&mut self, k: &'b Fp) {
        *self = *self * *k
    }
}
impl Sum for G {
    fn sum<I: Iterator<Item = G>>(it: I) -> G {
        it.fold(G::identity(), |a, b| a + b)
    }
}
impl<'a> Sum<&'a G> for G {
    fn sum<I: Iterator<Item = &'a G>>(it: I) -> G {
        it.fold(G::identity(), |a, b| a + *b)
    }
}
impl Group for G {
    type Scalar = Fp;
    fn random(mut rng: impl RngCore) -> Self {
        let mut b = [0u8; 16];
        rng.fill_bytes(&mut b);
        gen_named(&format!("random:{:?}", b))
    }
    fn identity() -> Self {
        G { p: Ve::identity(), lc: 0 }
    }
    fn generator() -> Self {
        gen_with("GENERATOR", Ve::generator())
    }
    fn is_identity(&self) -> Choice {
        let r = self.p.is_identity();
        decide(self.lc, bool::from(r));
        let me = *self;
        with_tab(|t| t.last = Some(me));
        r
    }
    fn double(&self) -> Self {
        *self + *self
    }
}
impl Curve for G {
    type AffineRepr = GA;
    fn to_affine(&self) -> GA {
        GA { p: self.p.to_affine(), lc: self.lc }
    }
    fn batch_normalize(p: &[Self], q: &mut [GA]) {
        assert_eq!(p.len(), q.len());
        for (p, q) in p.iter().zip(q.iter_mut()) {
            *q = p.to_affine();
        }
    }
}
impl GroupEncoding for G {
    type Repr = [u8; 32];
    fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
        GA::from_bytes(b).map(|x| x.to_curve())
    }
    fn from_bytes_unchecked(b: &[u8; 32]) -> CtOption<Self> {
        Self::from_bytes(b)
    }
    fn to_bytes(&self) -> [u8; 32] {
        self.to_affine().to_bytes()
    }
}
impl PrimeGroup for G {}
impl PrimeCurve for G {
    type Affine = GA;
}
impl Default for G {
    fn default() -> Self {
        G::identity()
    }
}
impl From<GA> for G {
    fn from(a: GA) -> G {
        a.to_curve()
    }
}
impl From<G> for GA {
    fn from(a: G) -> GA {
        a.to_affine()
    }
}
impl CurveExt for G {
    type ScalarExt = Fp;
    type Base = Fq;
    type AffineExt = GA;
    const CURVE_ID: &'static str = "vesta";
    fn endo(&self) -> Self {
        G { p: self.p.endo(), lc: scale(self.lc, &<Fp as ff::WithSmallOrderMulGroup<3>>::ZETA) }
    }
    fn jacobian_coordinates(&self) -> (Fq, Fq, Fq) {
        self.p.jacobian_coordinates()
    }
    fn hash_to_curve<'a>(domain: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
        let h = Ve::hash_to_curve(domain);
        Box::new(move |m| {
            let mut s = format!("{}:", domain);
            for b in m {
                s += &format!("{:02x}", b);
            }
            gen_with(&s, h(m))
        })
    }
    fn is_on_curve(&self) -> Choice {
        self.p.is_on_curve()
    }
    fn a() -> Fq {
        <Ve as CurveExt>::a()
    }
    fn b() -> Fq {
        <Ve as CurveExt>::b()
    }
    fn new_jacobian(x: Fq, y: Fq, z: Fq) -> CtOption<Self> {
        Ve::new_jacobian(x, y, z).map(|p| GA::of_point(p.to_affine()).to_curve())
    }
}
impl GA {
    /// Looks the point up among those whose bytes were observed; otherwise a fresh generator.
    pub fn of_point(p: VeA) -> GA {
        if bool::from(p.is_identity()) {
            return GA { p, lc: 0 };
        }
        let b = p.to_bytes();
        let l = with_tab(|t| t.by_bytes.get(&b).copied());
        match l {
            Some(lc) => GA { p, lc },
            None => {
                let g = gen_with(&format!("pt:{:?}", p), p.to_curve());
                with_tab(|t| t.by_bytes.insert(b, g.lc));
                GA { p, lc: g.lc }
            }
        }
    }
}
impl GroupEncoding for GA {
    type Repr = [u8; 32];
    fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
        VeA::from_bytes(b).map(GA::of_point)
    }
    fn from_bytes_unchecked(b: &[u8; 32]) -> CtOption<Self> {
        Self::from_bytes(b)
    }
    fn to_bytes(&self) -> [u8; 32] {
        let b = self.p.to_bytes();
        let lc = self.lc;
        with_tab(|t| {
            t.by_bytes.entry(b).or_insert(lc);
        });
        b
    }
}
impl Default for GA {
    fn default() -> Self {
        GA::identity()
    }
}
impl PrimeCurveAffine for GA {
    type Scalar = Fp;
    type Curve = G;
    fn identity() -> Self {
        GA { p: VeA::identity(), lc: 0 }
    }
    fn generator() -> Self {
        G::generator().to_affine()
    }
    fn is_identity(&self) -> Choice {
        let r = self.p.is_identity();
        decide(self.lc, bool::from(r));
        r
    }
    fn to_curve(&self) -> G {
        G { p: self.p.to_curve(), lc: self.lc }
    }
}
impl CurveAffine for GA {
    type ScalarExt = Fp;
    type Base = Fq;
    type CurveExt = G;
    fn coordinates(&self) -> CtOption<Coordinates<Self>> {
        self.p.coordinates().and_then(|c| {
            let b = self.to_bytes();
            let _ = b;
            Coordinates::from_xy(*c.x(), *c.y())
        })
    }
    fn from_xy(x: Fq, y: Fq) -> CtOption<Self> {
        VeA::from_xy(x, y).map(GA::of_point)
    }
    fn is_on_curve(&self) -> Choice {
        self.p.is_on_curve()
    }
    fn a() -> Fq {
        <VeA as CurveAffine>::a()
    }
    fn b() -> Fq {
        <VeA as CurveAffine>::b()
    }
}
