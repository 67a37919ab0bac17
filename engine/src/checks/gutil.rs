//! P25, P26: the utility gadgets.
use group::Group;
use super::gadget::*;
use crate::core::*;
use ff::Field;
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig, CondSwapInstructions};
use halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig;
use super::gdom::*;
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_gadgets::utilities::lookup_range_check::{LookupRangeCheck, LookupRangeCheckConfig, PallasLookupRangeCheck, PallasLookupRangeCheck4_5BConfig, PallasLookupRangeCheckConfig};
use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Error, Instance, TableColumn};
use pasta_curves::Fp;

pub type Cell = AssignedCell<Fp, Fp>;
/// an advice column and an instance column, through which inputs and outputs pass
#[derive(Clone, Copy)]
pub struct Io {
    pub w: Column<Advice>,
    pub i: Column<Instance>,
}
impl Io {
    pub fn new(m: &mut ConstraintSystem<Fp>) -> Io {
        let io = Io { w: m.advice_column(), i: m.instance_column() };
        m.enable_equality(io.w);
        m.enable_equality(io.i);
        io
    }
    pub fn inp(&self, l: &mut impl Layouter<Fp>, row: usize) -> Result<Cell, Error> {
        l.assign_region(|| "input", |mut r| r.assign_advice_from_instance(|| "input", self.i, row, self.w, 0))
    }
    /// the value of an input, not tied to it
    pub fn peek(&self, l: &mut impl Layouter<Fp>, row: usize) -> Result<Value<Fp>, Error> {
        l.assign_region(|| "peek", |mut r| r.instance_value(self.i, row))
    }
    pub fn out(&self, l: &mut impl Layouter<Fp>, c: &Cell, row: usize) -> Result<(), Error> {
        l.constrain_instance(c.cell(), self.i, row)
    }
}
pub fn p2(e: u32) -> Fp {
    (0..e).fold(Fp::one(), |a, _| a.double())
}
/// the number x >> s
fn shr(x: Fp, s: u32) -> Fp {
    use ff::PrimeField;
    let r = x.shadow().to_repr();
    let mut o = Fp::zero();
    for i in (s..256).rev() {
        o = o.double() + Fp::from((r[i as usize / 8] >> (i % 8) & 1) as u64);
    }
    o
}
pub fn nth(x: u64) -> Fp {
    Fp::from(x).square().square() * Fp::from(0x9e3779b97f4a7c15) + Fp::from(x)
}

// ---------------------------------------------------------------- lookup range check
#[derive(Clone, Copy, Debug)]
pub enum How {
    /// an existing cell
    Copy,
    /// a value witnessed here
    Witness,
}
/// a range check with its table
pub trait Kind<const K: usize>: 'static {
    type L: LookupRangeCheck<Fp, K> + 'static;
    type C: Clone;
    fn configure(m: &mut ConstraintSystem<Fp>) -> (Self::L, Self::C);
    fn load(c: &Self::C, l: &mut impl Layouter<Fp>) -> Result<(), Error>;
}
pub struct Small<const K: usize>;
impl<const K: usize> Kind<K> for Small<K> {
    type L = LookupRangeCheckConfig<Fp, K>;
    type C = TableColumn;
    fn configure(m: &mut ConstraintSystem<Fp>) -> (Self::L, TableColumn) {
        let a = m.advice_column();
        let t = m.lookup_table_column();
        (LookupRangeCheckConfig::configure(m, a, t), t)
    }
    fn load(t: &TableColumn, l: &mut impl Layouter<Fp>) -> Result<(), Error> {
        l.assign_table(
            || "table",
            |mut tab| {
                for i in 0..1usize << K {
                    tab.assign_cell(|| "i", *t, i, || Value::known(Fp::from(i as u64)))?;
                }
                Ok(())
            },
        )
    }
}
/// the table is Sinsemilla's
pub struct Sins<L>(std::marker::PhantomData<L>);
impl<L: PallasLookupRangeCheck + 'static> Kind<10> for Sins<L> {
    type L = L;
    type C = SinsemillaConfig<HashDom, CommitDom, Bases, L>;
    fn configure(m: &mut ConstraintSystem<Fp>) -> (L, Self::C) {
        let a: Vec<Column<Advice>> = (0..5).map(|_| m.advice_column()).collect();
        let t = (m.lookup_table_column(), m.lookup_table_column(), m.lookup_table_column());
        let f = m.fixed_column();
        let r = m.advice_column();
        let l = L::configure(m, r, t.0);
        let c = SinsemillaChip::<HashDom, CommitDom, Bases, L>::configure(m, [a[0], a[1], a[2], a[3], a[4]], a[2], f, t, l, false);
        (l, c)
    }
    fn load(c: &Self::C, l: &mut impl Layouter<Fp>) -> Result<(), Error> {
        SinsemillaChip::load(c.clone(), l)
    }
}
struct Range<T, const K: usize> {
    words: usize,
    strict: bool,
    how: How,
    t: std::marker::PhantomData<T>,
}
impl<const K: usize, T: Kind<K>> Gadget for Range<T, K> {
    type Config = (Io, (T::L, T::C));
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        let io = Io::new(m);
        let c = m.fixed_column();
        m.enable_constant(c);
        (io, T::configure(m))
    }
    /// in: x, and z_W unless strict; out: the other running sums
    fn synth(&self, (io, (c, t)): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        T::load(&t, &mut l)?;
        let zs = match self.how {
            How::Copy => {
                let x = io.inp(&mut l, 0)?;
                c.copy_check(l.namespace(|| "check"), x, self.words, self.strict)?
            }
            How::Witness => {
                let x = io.peek(&mut l, 0)?;
                c.witness_check(l.namespace(|| "check"), x, self.words, self.strict)?
            }
        };
        if let How::Witness = self.how {
            io.out(&mut l, &zs[0], 0)?;
        }
        sums(&io, &mut l, &zs, self.words, self.strict)
    }
}
fn sums(io: &Io, l: &mut impl Layouter<Fp>, zs: &[Cell], words: usize, strict: bool) -> Result<(), Error> {
    if zs.len() != words + 1 {
        return Err(Error::Synthesis);
    }
    if strict {
        for i in 1..=words {
            io.out(l, &zs[i], i)?;
        }
    } else {
        io.out(l, &zs[words], 1)?;
        for i in 1..words {
            io.out(l, &zs[i], i + 1)?;
        }
    }
    Ok(())
}
/// the honest instance: x = z_0, (z_W unless strict), z_1, .. , (z_W if strict)
fn sums_of(k: u32, x: Fp, words: usize, strict: bool) -> Vec<Fp> {
    let z = |i: usize| shr(x, k * i as u32);
    let mut v = vec![x];
    if !strict {
        v.push(z(words));
    }
    v.extend((1..words).map(z));
    if strict {
        v.push(z(words));
    }
    v
}
struct ShortRange<T, const K: usize> {
    bits: usize,
    how: How,
    t: std::marker::PhantomData<T>,
}
impl<const K: usize, T: Kind<K>> Gadget for ShortRange<T, K> {
    type Config = (Io, (T::L, T::C));
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        let io = Io::new(m);
        let c = m.fixed_column();
        m.enable_constant(c);
        (io, T::configure(m))
    }
    fn synth(&self, (io, (c, t)): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        T::load(&t, &mut l)?;
        match self.how {
            How::Copy => {
                let x = io.inp(&mut l, 0)?;
                c.copy_short_check(l.namespace(|| "check"), x, self.bits)
            }
            How::Witness => {
                let x = io.peek(&mut l, 0)?;
                let x = c.witness_short_check(l.namespace(|| "check"), x, self.bits)?;
                io.out(&mut l, &x, 0)
            }
        }
    }
}
struct Sum<const W: usize> {
    bits: usize,
    windows: usize,
    strict: bool,
    how: How,
    offset: usize,
}
impl<const W: usize> Gadget for Sum<W> {
    type Config = (Io, RunningSumConfig<Fp, W>);
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        let io = Io::new(m);
        let c = m.fixed_column();
        m.enable_constant(c);
        let z = m.advice_column();
        let q = m.selector();
        (io, RunningSumConfig::configure(m, q, z))
    }
    fn synth(&self, (io, c): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        let zs = match self.how {
            How::Copy => {
                let x = io.inp(&mut l, 0)?;
                l.assign_region(|| "sum", |mut r| c.copy_decompose(&mut r, self.offset, x.clone(), self.strict, self.bits, self.windows))?
            }
            How::Witness => {
                let x = io.peek(&mut l, 0)?;
                let zs = l.assign_region(|| "sum", |mut r| c.witness_decompose(&mut r, self.offset, x, self.strict, self.bits, self.windows))?;
                io.out(&mut l, &zs[0], 0)?;
                zs
            }
        };
        sums(&io, &mut l, &zs, self.windows, self.strict)
    }
}
/// numbers below 2^bits
fn within(bits: u32, salt: u64) -> Vec<Fp> {
    let mask = |x: Fp| x - shr(x, bits) * p2(bits);
    let mut v = vec![Fp::zero(), p2(bits) - Fp::one()];
    v.push(mask(nth(salt)));
    if bits > 1 {
        v.push(p2(bits - 1));
        v.push(mask(nth(salt + 77).invert().unwrap()));
    }
    v
}
fn beyond(bits: u32, salt: u64) -> Vec<Fp> {
    let mut v = vec![p2(bits), -Fp::one(), p2(bits).invert().unwrap(), -p2(bits), nth(salt).invert().unwrap()];
    if bits + 1 < 254 {
        v.push(p2(bits + 1) - Fp::one());
        v.push(p2(253) + Fp::one());
    }
    v.retain(|x| shr(*x, bits) != Fp::zero());
    v
}
fn range<const K: usize, T: Kind<K>>(cx: &mut Cx, tag: &str, k: u32, words: &[usize], big: bool) {
    for w in words {
        for strict in [true, false] {
            for how in [How::Copy, How::Witness] {
                let g = Range::<T, K> { words: *w, strict, how, t: Default::default() };
                let name = format!("{} {} words strict {} {:?}", tag, w, strict, how);
                let bits = (K * w) as u32;
                if strict {
                    bounded(cx, &format!("{} bound", name), &g, k, sums_of(K as u32, nth(3) - shr(nth(3), bits) * p2(bits), *w, true), 0, 0, bits);
                }
                for (i, x) in within(bits, *w as u64).into_iter().chain(if strict { vec![] } else { beyond(bits, 5) }).enumerate() {
                    if !big && i > 2 && i < 5 {
                        continue;
                    }
                    decide(cx, &format!("{} value {}", name, i), &g, k, sums_of(K as u32, x, *w, strict), if strict { 1 } else { 2 });
                }
                if strict {
                    for (i, x) in beyond(bits, 9).into_iter().enumerate().take(if big { 9 } else { 3 }) {
                        refuse(cx, &format!("{} out of range {}", name, i), &g, k, sums_of(K as u32, Fp::zero(), *w, true), vec![x]);
                    }
                }
            }
        }
    }
}
fn short<const K: usize, T: Kind<K>>(cx: &mut Cx, tag: &str, k: u32, bits: &[usize]) {
    for b in bits {
        for how in [How::Copy, How::Witness] {
            if *b >= K && matches!(how, How::Copy) {
                continue;
            }
            let g = ShortRange::<T, K> { bits: *b, how, t: Default::default() };
            let name = format!("{} {} bits {:?}", tag, b, how);
            bounded(cx, &format!("{} bound", name), &g, k, vec![Fp::zero()], 0, 0, *b as u32);
            for (i, x) in within(*b as u32, *b as u64).into_iter().enumerate() {
                decide(cx, &format!("{} value {}", name, i), &g, k, vec![x], 1);
            }
            for (i, x) in beyond(*b as u32, 9).into_iter().enumerate().take(3) {
                refuse(cx, &format!("{} out of range {}", name, i), &g, k, vec![Fp::zero()], vec![x]);
            }
        }
    }
}
fn sum<const W: usize>(cx: &mut Cx, list: &[(usize, usize)]) {
    for (bits, windows) in list {
        for strict in [true, false] {
            for how in [How::Copy, How::Witness] {
                let g = Sum::<W> { bits: *bits, windows: *windows, strict, how, offset: if strict { 0 } else { 2 } };
                let name = format!("running sum {} bits, {} windows of {}, strict {} {:?}", bits, windows, W, strict, how);
                let top = (W * windows) as u32;
                if strict && top < 254 {
                    bounded(cx, &format!("{} bound", name), &g, 10, sums_of(W as u32, Fp::one(), *windows, true), 0, 0, top);
                }
                for (i, x) in within((*bits as u32).min(top).min(253), *windows as u64).into_iter().enumerate() {
                    decide(cx, &format!("{} value {}", name, i), &g, 10, sums_of(W as u32, x, *windows, strict), if strict { 1 } else { 2 });
                }
                if strict && top < 254 {
                    for (i, x) in beyond(top, 9).into_iter().enumerate().take(4) {
                        refuse(cx, &format!("{} out of range {}", name, i), &g, 10, sums_of(W as u32, Fp::zero(), *windows, true), vec![x]);
                    }
                }
            }
        }
    }
}
pub fn p25(cx: &mut Cx) {
    cx.functions(&[
        "halo2_gadgets::utilities::lookup_range_check::{LookupRangeCheckConfig, LookupRangeCheck4_5BConfig}::{configure, load, copy_check, witness_check, copy_short_check, witness_short_check, short_range_check}",
        "halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig::{configure, copy_decompose, witness_decompose}",
        "halo2_gadgets::utilities::{range_check, decompose_word, lebs2ip}",
    ]);
    cx.bound("every prover witness; word sizes 3 (all short values) and 10, 1 to 25 words, short checks of 0 to 10 bits, running sums of 1 to 4 bit windows, strict and not; given values at and around the bounds, generic, the largest field elements");
    let th = tier_thorough();
    range::<3, Small<3>>(cx, "range check, 3-bit words,", 5, &[1, 2, 5], true);
    short::<3, Small<3>>(cx, "short range check, K 3,", 5, &[0, 1, 2, 3]);
    type Plain = Sins<PallasLookupRangeCheckConfig>;
    type Tagged = Sins<PallasLookupRangeCheck4_5BConfig>;
    let w: &[usize] = if th { &[1, 2, 3, 6, 13, 24, 25] } else { &[1, 13, 25] };
    range::<10, Plain>(cx, "range check", 11, w, th);
    range::<10, Tagged>(cx, "tagged range check", 11, if th { w } else { &[2, 25] }, th);
    let b: &[usize] = if th { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10] } else { &[1, 4, 5, 9, 10] };
    short::<10, Plain>(cx, "short range check", 11, b);
    short::<10, Tagged>(cx, "tagged short range check", 11, b);
    sum::<1>(cx, &[(5, 5), (2, 2)]);
    sum::<2>(cx, &[(6, 3), (5, 3)]);
    sum::<3>(cx, if th { &[(64, 22), (66, 22), (7, 3), (252, 84)] } else { &[(64, 22), (7, 3), (252, 84)] });
}

// ---------------------------------------------------------------- conditional swap
#[derive(Clone, Copy, Debug)]
enum SwapOp {
    Swap,
    Mux,
    Points,
    NonId,
}
struct Swap {
    op: SwapOp,
}
type Ecc = halo2_gadgets::ecc::chip::EccChip<Bases, PallasLookupRangeCheckConfig>;
impl Gadget for Swap {
    type Config = (Io, CondSwapConfig, halo2_gadgets::ecc::chip::EccConfig<Bases, PallasLookupRangeCheckConfig>);
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        let io = Io::new(m);
        let a: Vec<Column<Advice>> = (0..10).map(|_| m.advice_column()).collect();
        let c = CondSwapChip::configure(m, [a[0], a[1], a[2], a[3], a[4]]);
        for a in &a {
            m.enable_equality(*a);
        }
        let t = m.lookup_table_column();
        let l: Vec<_> = (0..8).map(|_| m.fixed_column()).collect();
        let r = PallasLookupRangeCheckConfig::configure(m, a[9], t);
        let e = Ecc::configure(m, a.try_into().unwrap(), l.try_into().unwrap(), r);
        (io, c, e)
    }
    fn synth(&self, (io, c, e): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        use halo2_gadgets::ecc::EccInstructions;
        let chip = CondSwapChip::construct(c);
        let ecc = Ecc::construct(e);
        match self.op {
            // a, b, swap are rows 0, 1, 4 (b and swap witnessed by the gadget); the pair is rows 2, 3
            SwapOp::Swap => {
                let a = io.inp(&mut l, 0)?;
                let b = io.peek(&mut l, 1)?;
                let s = io.peek(&mut l, 4)?;
                let s = s.map(|s| s == Fp::one());
                let (x, y) = chip.swap(l.namespace(|| "swap"), (a, b), s)?;
                io.out(&mut l, &x, 2)?;
                io.out(&mut l, &y, 3)
            }
            // choice, left, right; out
            SwapOp::Mux => {
                let s = io.inp(&mut l, 0)?;
                let a = io.inp(&mut l, 1)?;
                let b = io.inp(&mut l, 2)?;
                let x = chip.mux(&mut l, s, a, b)?;
                io.out(&mut l, &x, 3)
            }
            // choice, left, right; out
            SwapOp::Points => {
                let s = io.inp(&mut l, 0)?;
                let mut pts = vec![];
                for i in 0..2 {
                    let v = point(io.peek(&mut l, 1 + 2 * i)?, io.peek(&mut l, 2 + 2 * i)?);
                    let p = ecc.witness_point(&mut l, v)?;
                    io.out(&mut l, &p.x(), 1 + 2 * i)?;
                    io.out(&mut l, &p.y(), 2 + 2 * i)?;
                    pts.push(p);
                }
                let r = chip.mux_on_points(l.namespace(|| "mux"), &s, &pts[0], &pts[1])?;
                io.out(&mut l, &r.x(), 5)?;
                io.out(&mut l, &r.y(), 6)
            }
            SwapOp::NonId => {
                let s = io.inp(&mut l, 0)?;
                let mut pts = vec![];
                for i in 0..2 {
                    let v = point(io.peek(&mut l, 1 + 2 * i)?, io.peek(&mut l, 2 + 2 * i)?);
                    let p = ecc.witness_point_non_id(&mut l, v)?;
                    io.out(&mut l, &p.x(), 1 + 2 * i)?;
                    io.out(&mut l, &p.y(), 2 + 2 * i)?;
                    pts.push(p);
                }
                let r = chip.mux_on_non_identity_points(l.namespace(|| "mux"), &s, &pts[0], &pts[1])?;
                io.out(&mut l, &r.x(), 5)?;
                io.out(&mut l, &r.y(), 6)
            }
        }
    }
}
/// the point with these coordinates, (0, 0) being the identity
pub fn point(x: Value<Fp>, y: Value<Fp>) -> Value<pasta_curves::pallas::Affine> {
    use group::prime::PrimeCurveAffine;
    use pasta_curves::arithmetic::CurveAffine;
    x.zip(y).map(|(x, y)| {
        if bool::from(x.shadow().is_zero()) && bool::from(y.shadow().is_zero()) {
            pasta_curves::pallas::Affine::identity()
        } else {
            pasta_curves::pallas::Affine::from_xy(x, y).unwrap()
        }
    })
}
/// coordinates of a point, (0, 0) for the identity
pub fn xy(p: pasta_curves::pallas::Point) -> Vec<Fp> {
    use group::Curve;
    use pasta_curves::arithmetic::CurveAffine;
    match Option::<pasta_curves::arithmetic::Coordinates<_>>::from(p.to_affine().coordinates()) {
        Some(c) => vec![*c.x(), *c.y()],
        None => vec![Fp::zero(), Fp::zero()],
    }
}
/// a fixed arbitrary point
pub fn some_point(i: u64) -> pasta_curves::pallas::Point {
    use pasta_curves::arithmetic::CurveExt;
    pasta_curves::pallas::Point::hash_to_curve("hv")(&i.to_le_bytes())
}
pub fn p26(cx: &mut Cx) {
    cx.functions(&["halo2_gadgets::utilities::cond_swap::CondSwapChip::{configure, swap, mux, mux_on_points, mux_on_non_identity_points}"]);
    let (zero, one) = (Fp::zero(), Fp::one());
    // completeness over all field elements
    for s in [zero, one] {
        cx.run(&format!("swap, swap = {:?}", s == one), move |h| {
            let (a, b) = (h.fp("a"), h.fp("b"));
            let (x, y) = if s == one { (b, a) } else { (a, b) };
            honest(h, &Swap { op: SwapOp::Swap }, 6, vec![a, b, x, y, s]);
        });
        cx.run(&format!("mux, choice = {:?}", s == one), move |h| {
            let (a, b) = (h.fp("a"), h.fp("b"));
            honest(h, &Swap { op: SwapOp::Mux }, 6, vec![s, a, b, if s == one { b } else { a }]);
        });
    }
    functional(cx, "mux, uniqueness for all inputs", &Swap { op: SwapOp::Mux }, 6, vec![one, nth(1), nth(2), nth(2)], 3);
    let (p, q) = (xy(some_point(8)), xy(some_point(9)));
    functional(cx, "mux on points, uniqueness for all inputs", &Swap { op: SwapOp::Points }, 11, [vec![one], p.clone(), q.clone(), q.clone()].concat(), 5);
    functional(cx, "mux on non-identity points, uniqueness for all inputs", &Swap { op: SwapOp::NonId }, 11, [vec![zero], p.clone(), q, p].concat(), 5);
    cx.witness("mux returns the other", |h| {
        let (a, b) = (h.fp("a"), h.fp("b"));
        honest(h, &Swap { op: SwapOp::Mux }, 6, vec![zero, a, b, b]);
    });
    // soundness
    let vals: Vec<(Fp, Fp)> = vec![(nth(1), nth(2)), (zero, one), (one, zero), (nth(5), zero), (zero, nth(6)), (-one, nth(7)), (nth(8), -nth(8)), (nth(9), one), (nth(10), nth(10))];
    for (i, (a, b)) in vals.iter().enumerate() {
        for s in [zero, one] {
            decide(cx, &format!("mux choice {:?} values {}", s == one, i), &Swap { op: SwapOp::Mux }, 6, vec![s, *a, *b, if s == one { *b } else { *a }], 3);
            if a != b {
                let (x, y) = if s == one { (*b, *a) } else { (*a, *b) };
                // the prover chooses b and the bit: whatever they are, an output other than a makes the other one a
                let name = format!("swap {:?} values {}", s == one, i);
                order(cx, &format!("{} first output given", name), &Swap { op: SwapOp::Swap }, 6, vec![*a, *b, x, y, s], if s == one { vec![0, 2] } else { vec![0, 3] }, if s == one { vec![3] } else { vec![2] });
            }
        }
        for bad in [Fp::from(2), -one, nth(40)] {
            if a != b {
                refuse(cx, &format!("mux choice {:?} values {}", bad, i), &Swap { op: SwapOp::Mux }, 6, vec![zero, *a, *b, *a], vec![bad, *a, *b]);
            }
        }
    }
    let id = pasta_curves::pallas::Point::identity();
    let pts = [(some_point(1), some_point(2)), (some_point(3), -some_point(3)), (id, some_point(4)), (some_point(5), id), (some_point(6), some_point(6))];
    for (i, (p, q)) in pts.iter().enumerate() {
        for s in [zero, one] {
            let r = if s == one { q } else { p };
            let inst: Vec<Fp> = [vec![s], xy(*p), xy(*q), xy(*r)].concat();
            decide(cx, &format!("mux on points, choice {:?}, points {}", s == one, i), &Swap { op: SwapOp::Points }, 11, inst.clone(), 5);
            if !bool::from(p.is_identity()) && !bool::from(q.is_identity()) {
                decide(cx, &format!("mux on non-identity points, choice {:?}, points {}", s == one, i), &Swap { op: SwapOp::NonId }, 11, inst.clone(), 5);
            }
            if p != q {
                for bad in [Fp::from(2), -one] {
                    let ins: Vec<Fp> = [vec![bad], xy(*p), xy(*q)].concat();
                    refuse(cx, &format!("mux on points, choice {:?}, points {}, refused", bad, i), &Swap { op: SwapOp::Points }, 11, inst.clone(), ins);
                }
            }
        }
    }
}
