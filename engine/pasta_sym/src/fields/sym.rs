//! Symbolic tagging of field elements.
//!
//! `Fp`/`Fq` carry the concrete (shadow) value next to the id of a term in a
//! global hash-consed DAG. Tag 0 means "a plain constant". Every arithmetic
//! operation on a tagged value appends a term; every decision taken on a
//! tagged value (equality, ordering, byte conversion) follows the shadow value
//! and is recorded as a path condition.
use core::cmp::Ordering;
use core::fmt;
use core::ops::{Add, Mul, Neg, Sub};
use std::collections::HashMap;
use std::string::String;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering as AO};
use std::sync::Mutex;
use std::vec::Vec;

use ff::{Field, FieldBits, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use rand::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

use super::{RawFp, RawFq};

/// Term operator.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    Const,
    Add,
    Sub,
    Mul,
    Neg,
    Inv,
    /// Square root (any root) of the operand.
    Sqrt,
}

/// A term.
#[derive(Clone, Copy, Debug)]
pub struct Node {
    /// 0 = Fp, 1 = Fq
    pub field: u8,
    pub op: Op,
    pub a: u32,
    pub b: u32,
    /// shadow value, Montgomery limbs
    pub val: [u64; 4],
}

/// A decision taken on symbolic values.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pc {
    /// (a == b) evaluated to the bool
    Eq(u32, u32, bool),
    /// a.cmp(b)
    Cmp(u32, u32, Ordering),
    /// the canonical bytes of the term were observed
    Bytes(u32),
    /// sqrt existence
    IsSquare(u32, bool),
}

#[derive(Default)]
pub struct Dag {
    pub nodes: Vec<Node>,
    cons: HashMap<(u8, Op, u32, u32), u32>,
    consts: HashMap<(u8, [u64; 4]), u32>,
    pub names: HashMap<u32, String>,
    pub pcs: Vec<Pc>,
    pub nrnd: usize,
    /// every value drawn by `Field::random`
    pub drawn: Vec<(u8, [u64; 4])>,
}

lazy_static::lazy_static! {
    static ref DAG: Mutex<Dag> = Mutex::new(Dag::default());
}
static RANDOM_SYM: AtomicBool = AtomicBool::new(false);
static ACTIVE: AtomicUsize = AtomicUsize::new(0);

/// Clears the term table. No tagged values may be used afterwards.
pub fn reset() {
    let mut d = DAG.lock().unwrap();
    *d = Dag::default();
    // index 0 is reserved for "untagged"
    d.nodes.push(Node {
        field: 0,
        op: Op::Const,
        a: 0,
        b: 0,
        val: [0; 4],
    });
    ACTIVE.store(1, AO::SeqCst);
    RANDOM_SYM.store(false, AO::SeqCst);
}

/// Whether `Field::random` yields fresh symbolic variables.
pub fn set_random_symbolic(on: bool) {
    RANDOM_SYM.store(on, AO::SeqCst);
}

/// Runs `f` on the global term table.
pub fn with_dag<R>(f: impl FnOnce(&mut Dag) -> R) -> R {
    let mut d = DAG.lock().unwrap();
    if d.nodes.is_empty() {
        drop(d);
        reset();
        d = DAG.lock().unwrap();
    }
    f(&mut d)
}

impl Dag {
    pub fn mk(&mut self, field: u8, op: Op, a: u32, b: u32, val: [u64; 4]) -> u32 {
        if let Some(i) = self.cons.get(&(field, op, a, b)) {
            return *i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { field, op, a, b, val });
        self.cons.insert((field, op, a, b), i);
        i
    }
    pub fn mk_const(&mut self, field: u8, val: [u64; 4]) -> u32 {
        if let Some(i) = self.consts.get(&(field, val)) {
            return *i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(Node {
            field,
            op: Op::Const,
            a: 0,
            b: 0,
            val,
        });
        self.consts.insert((field, val), i);
        i
    }
    pub fn mk_var(&mut self, field: u8, name: String, val: [u64; 4]) -> u32 {
        let i = self.nodes.len() as u32;
        self.nodes.push(Node {
            field,
            op: Op::Var,
            a: i,
            b: 0,
            val,
        });
        self.names.insert(i, name);
        i
    }
}

macro_rules! tagged_field {
    ($name:ident, $raw:ident, $fid:expr) => {
        /// Field element: shadow value plus term tag (0 = constant).
        #[derive(Clone, Copy)]
        pub struct $name {
            pub v: $raw,
            pub t: u32,
        }

        impl Eq for $name {}

        impl $name {
            pub const FIELD: u8 = $fid;
            pub const fn zero() -> Self {
                $name { v: $raw::zero(), t: 0 }
            }
            pub const fn one() -> Self {
                $name { v: $raw::one(), t: 0 }
            }
            pub const fn from_raw(val: [u64; 4]) -> Self {
                $name { v: $raw::from_raw(val), t: 0 }
            }
            pub const fn const_neg(x: &Self) -> Self {
                $name { v: (&x.v).neg(), t: 0 }
            }
            /// A fresh symbolic variable with the given shadow value.
            pub fn sym(name: &str, shadow: Self) -> Self {
                let t = with_dag(|d| d.mk_var($fid, name.into(), shadow.v.0));
                $name { v: shadow.v, t }
            }
            /// The shadow value as a plain constant.
            pub fn shadow(&self) -> Self {
                $name { v: self.v, t: 0 }
            }
            pub fn is_sym(&self) -> bool {
                self.t != 0
            }
            pub fn from_limbs(l: [u64; 4]) -> Self {
                $name { v: $raw(l), t: 0 }
            }
            /// Term id (interning constants).
            pub fn term(&self) -> u32 {
                if self.t != 0 {
                    self.t
                } else {
                    with_dag(|d| d.mk_const($fid, self.v.0))
                }
            }
            pub fn from_term(t: u32) -> Self {
                let n = with_dag(|d| d.nodes[t as usize]);
                assert!(n.field == $fid);
                if n.op == Op::Const {
                    $name { v: $raw(n.val), t: 0 }
                } else {
                    $name { v: $raw(n.val), t }
                }
            }
            pub fn double(&self) -> Self {
                self + self
            }
            pub fn square(&self) -> Self {
                self * self
            }
            #[cold]
            fn node2(op: Op, a: &Self, b: &Self, v: $raw) -> Self {
                let t = with_dag(|d| {
                    let mut x = if a.t != 0 { a.t } else { d.mk_const($fid, a.v.0) };
                    let mut y = if b.t != 0 { b.t } else { d.mk_const($fid, b.v.0) };
                    if (op == Op::Add || op == Op::Mul) && x > y {
                        core::mem::swap(&mut x, &mut y);
                    }
                    d.mk($fid, op, x, y, v.0)
                });
                $name { v, t }
            }
            #[cold]
            fn node1(op: Op, a: &Self, v: $raw) -> Self {
                let t = with_dag(|d| d.mk($fid, op, a.t, 0, v.0));
                $name { v, t }
            }
        }

        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                self.v.fmt(f)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl From<bool> for $name {
            fn from(b: bool) -> Self {
                $name { v: $raw::from(b), t: 0 }
            }
        }
        impl From<u64> for $name {
            fn from(b: u64) -> Self {
                $name { v: $raw::from(b), t: 0 }
            }
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, other: &Self) -> Choice {
                let r = self.v.ct_eq(&other.v);
                if (self.t != 0 || other.t != 0) && self.t != other.t {
                    let (a, b) = (self.term(), other.term());
                    with_dag(|d| d.pcs.push(Pc::Eq(a, b, bool::from(r))));
                }
                r
            }
        }
        impl PartialEq for $name {
            fn eq(&self, other: &Self) -> bool {
                bool::from(self.ct_eq(other))
            }
        }
        impl Ord for $name {
            fn cmp(&self, other: &Self) -> Ordering {
                let r = self.v.cmp(&other.v);
                if (self.t != 0 || other.t != 0) && self.t != other.t {
                    let (a, b) = (self.term(), other.term());
                    with_dag(|d| d.pcs.push(Pc::Cmp(a, b, r)));
                }
                r
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
                Some(self.cmp(other))
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
                $name {
                    v: $raw::conditional_select(&a.v, &b.v, choice),
                    t: if bool::from(choice) { b.t } else { a.t },
                }
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            #[inline]
            fn neg(self) -> $name {
                let v = -self.v;
                if self.t == 0 {
                    $name { v, t: 0 }
                } else {
                    $name::node1(Op::Neg, self, v)
                }
            }
        }
        impl Neg for $name {
            type Output = $name;
            #[inline]
            fn neg(self) -> $name {
                -&self
            }
        }
        impl<'a, 'b> Add<&'b $name> for &'a $name {
            type Output = $name;
            #[inline]
            fn add(self, rhs: &'b $name) -> $name {
                let v = self.v + rhs.v;
                if self.t | rhs.t == 0 {
                    return $name { v, t: 0 };
                }
                if self.t == 0 && self.v.0 == [0; 4] {
                    return *rhs;
                }
                if rhs.t == 0 && rhs.v.0 == [0; 4] {
                    return *self;
                }
                $name::node2(Op::Add, self, rhs, v)
            }
        }
        impl<'a, 'b> Sub<&'b $name> for &'a $name {
            type Output = $name;
            #[inline]
            fn sub(self, rhs: &'b $name) -> $name {
                let v = self.v - rhs.v;
                if self.t | rhs.t == 0 {
                    return $name { v, t: 0 };
                }
                if self.t == rhs.t {
                    return $name::zero();
                }
                if self.t == 0 && self.v.0 == [0; 4] {
                    return -rhs;
                }
                if rhs.t == 0 && rhs.v.0 == [0; 4] {
                    return *self;
                }
                $name::node2(Op::Sub, self, rhs, v)
            }
        }
        impl<'a, 'b> Mul<&'b $name> for &'a $name {
            type Output = $name;
            #[inline]
            fn mul(self, rhs: &'b $name) -> $name {
                let v = self.v * rhs.v;
                if self.t | rhs.t == 0 {
                    return $name { v, t: 0 };
                }
                if (self.t == 0 && self.v.0 == [0; 4]) || (rhs.t == 0 && rhs.v.0 == [0; 4]) {
                    return $name::zero();
                }
                if self.t == 0 && self.v.0 == $raw::one().0 {
                    return *rhs;
                }
                if rhs.t == 0 && rhs.v.0 == $raw::one().0 {
                    return *self;
                }
                $name::node2(Op::Mul, self, rhs, v)
            }
        }
        impl_binops_additive!($name, $name);
        impl_binops_multiplicative!($name, $name);
        impl<T: ::core::borrow::Borrow<$name>> ::core::iter::Sum<T> for $name {
            fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::ZERO, |acc, item| acc + item.borrow())
            }
        }
        impl<T: ::core::borrow::Borrow<$name>> ::core::iter::Product<T> for $name {
            fn product<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::ONE, |acc, item| acc * item.borrow())
            }
        }
        impl From<$name> for [u8; 32] {
            fn from(value: $name) -> [u8; 32] {
                value.to_repr()
            }
        }
        impl<'a> From<&'a $name> for [u8; 32] {
            fn from(value: &'a $name) -> [u8; 32] {
                value.to_repr()
            }
        }
        impl Field for $name {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn random(rng: impl RngCore) -> Self {
                let v = $raw::random(rng);
                if RANDOM_SYM.load(AO::Relaxed) {
                    let t = with_dag(|d| {
                        let n = d.nrnd;
                        d.nrnd += 1;
                        d.mk_var($fid, std::format!("rnd{}", n), v.0)
                    });
                    $name { v, t }
                } else {
                    with_dag(|d| d.drawn.push(($fid, v.0)));
                    $name { v, t: 0 }
                }
            }
            fn double(&self) -> Self {
                self + self
            }
            fn square(&self) -> Self {
                self * self
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                if num.t | div.t == 0 {
                    let (c, v) = $raw::sqrt_ratio(&num.v, &div.v);
                    (c, $name { v, t: 0 })
                } else {
                    ff::helpers::sqrt_ratio_generic(num, div)
                }
            }
            fn sqrt_alt(&self) -> (Choice, Self) {
                let (c, v) = self.v.sqrt_alt();
                if self.t == 0 {
                    (c, $name { v, t: 0 })
                } else {
                    let t = self.t;
                    with_dag(|d| d.pcs.push(Pc::IsSquare(t, bool::from(c))));
                    (c, $name::node1(Op::Sqrt, self, v))
                }
            }
            fn sqrt(&self) -> CtOption<Self> {
                let (c, v) = self.sqrt_alt();
                CtOption::new(v, c)
            }
            fn invert(&self) -> CtOption<Self> {
                let r = self.v.invert();
                let nz = r.is_some();
                let v = r.unwrap_or($raw::zero());
                if self.t == 0 {
                    return CtOption::new($name { v, t: 0 }, nz);
                }
                let (a, b) = (self.t, $name::zero().term());
                with_dag(|d| d.pcs.push(Pc::Eq(a, b, !bool::from(nz))));
                CtOption::new($name::node1(Op::Inv, self, v), nz)
            }
        }
        impl PrimeField for $name {
            type Repr = [u8; 32];
            const MODULUS: &'static str = $raw::MODULUS;
            const TWO_INV: Self = $name { v: $raw::TWO_INV, t: 0 };
            const NUM_BITS: u32 = $raw::NUM_BITS;
            const CAPACITY: u32 = $raw::CAPACITY;
            const MULTIPLICATIVE_GENERATOR: Self = $name { v: $raw::MULTIPLICATIVE_GENERATOR, t: 0 };
            const S: u32 = $raw::S;
            const ROOT_OF_UNITY: Self = $name { v: $raw::ROOT_OF_UNITY, t: 0 };
            const ROOT_OF_UNITY_INV: Self = $name { v: $raw::ROOT_OF_UNITY_INV, t: 0 };
            const DELTA: Self = $name { v: $raw::DELTA, t: 0 };
            fn from_u128(v: u128) -> Self {
                $name { v: $raw::from_u128(v), t: 0 }
            }
            fn from_repr(repr: Self::Repr) -> CtOption<Self> {
                $raw::from_repr(repr).map(|v| $name { v, t: 0 })
            }
            fn to_repr(&self) -> Self::Repr {
                if self.t != 0 {
                    let t = self.t;
                    with_dag(|d| d.pcs.push(Pc::Bytes(t)));
                }
                self.v.to_repr()
            }
            fn is_odd(&self) -> Choice {
                Choice::from(self.to_repr()[0] & 1)
            }
        }
        impl PrimeFieldBits for $name {
            type ReprBits = <$raw as PrimeFieldBits>::ReprBits;
            fn to_le_bits(&self) -> FieldBits<Self::ReprBits> {
                if self.t != 0 {
                    let t = self.t;
                    with_dag(|d| d.pcs.push(Pc::Bytes(t)));
                }
                self.v.to_le_bits()
            }
            fn char_le_bits() -> FieldBits<Self::ReprBits> {
                $raw::char_le_bits()
            }
        }
        impl WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = $name { v: $raw::ZETA, t: 0 };
        }
        impl FromUniformBytes<64> for $name {
            fn from_uniform_bytes(bytes: &[u8; 64]) -> $name {
                $name { v: $raw::from_uniform_bytes(bytes), t: 0 }
            }
        }
    };
}

tagged_field!(Fp, RawFp, 0);
tagged_field!(Fq, RawFq, 1);

impl RawFp {
    pub fn from_limbs(l: [u64; 4]) -> Self {
        RawFp(l)
    }
    pub fn limbs_raw(&self) -> [u64; 4] {
        self.0
    }
}
impl RawFq {
    pub fn from_limbs(l: [u64; 4]) -> Self {
        RawFq(l)
    }
    pub fn limbs_raw(&self) -> [u64; 4] {
        self.0
    }
}
