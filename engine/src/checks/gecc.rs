//! P29..: the elliptic curve gadget.
use super::gadget::*;
use super::gdom::*;
use super::gutil::{nth, p2, point, some_point, xy, Io};
use crate::core::*;
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{EccChip, EccConfig};
use halo2_gadgets::ecc::{FixedPoint, FixedPointBaseField, FixedPointShort, NonIdentityPoint, Point, ScalarFixed, ScalarFixedShort, ScalarVar};
use halo2_gadgets::utilities::lookup_range_check::{PallasLookupRangeCheck, PallasLookupRangeCheck4_5BConfig, PallasLookupRangeCheckConfig};
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_proofs::circuit::{Layouter, Value};
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Error};
use pasta_curves::{pallas, Fp, Fq};
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// x, y
    Witness,
    NonId,
    /// the constant some_point(n), the identity for 0; out: x, y
    Const(u64),
    /// x, y, x, y; out: x, y
    AddInc,
    Add,
    AddMixed,
    Same,
    /// sign, x, y; out: x, y
    Sign,
    /// scalar, x, y; out: x, y
    Mul,
    /// magnitude, sign; out: x, y
    Short,
    /// scalar; out: x, y
    Base,
    /// (the scalar is the gadget's own); out: x, y
    Full(Fq),
}
pub struct Ec<L> {
    pub op: Op,
    pub l: PhantomData<L>,
}
pub fn ec<L>(op: Op) -> Ec<L> {
    Ec { op, l: PhantomData }
}
type Chip<L> = EccChip<Bases, L>;
type Sin<L> = SinsemillaConfig<HashDom, CommitDom, Bases, L>;
fn pt<L: PallasLookupRangeCheck + 'static>(chip: &Chip<L>, io: &Io, l: &mut impl Layouter<Fp>, r: usize) -> Result<Point<pallas::Affine, Chip<L>>, Error> {
    let v = point(io.peek(l, r)?, io.peek(l, r + 1)?);
    let p = Point::new(chip.clone(), l.namespace(|| "point"), v)?;
    out(io, l, &p, r)?;
    Ok(p)
}
fn non<L: PallasLookupRangeCheck + 'static>(chip: &Chip<L>, io: &Io, l: &mut impl Layouter<Fp>, r: usize) -> Result<NonIdentityPoint<pallas::Affine, Chip<L>>, Error> {
    let v = point(io.peek(l, r)?, io.peek(l, r + 1)?);
    let p = NonIdentityPoint::new(chip.clone(), l.namespace(|| "point"), v)?;
    out(io, l, &p.clone().into(), r)?;
    Ok(p)
}
pub fn out<L: PallasLookupRangeCheck + 'static>(io: &Io, l: &mut impl Layouter<Fp>, p: &Point<pallas::Affine, Chip<L>>, r: usize) -> Result<(), Error> {
    io.out(l, &p.inner().x(), r)?;
    io.out(l, &p.inner().y(), r + 1)
}
impl<L: PallasLookupRangeCheck + 'static> Gadget for Ec<L> {
    type Config = (Io, EccConfig<Bases, L>, Sin<L>);
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        let io = Io::new(m);
        let a: Vec<Column<Advice>> = (0..10).map(|_| m.advice_column()).collect();
        for a in &a {
            m.enable_equality(*a);
        }
        let c = m.fixed_column();
        m.enable_constant(c);
        let t = (m.lookup_table_column(), m.lookup_table_column(), m.lookup_table_column());
        let l: Vec<_> = (0..8).map(|_| m.fixed_column()).collect();
        let r = L::configure(m, a[9], t.0);
        let s = SinsemillaChip::<HashDom, CommitDom, Bases, L>::configure(m, [a[0], a[1], a[2], a[3], a[4]], a[2], l[0], t, r.clone(), false);
        let e = Chip::<L>::configure(m, a.try_into().unwrap(), l.try_into().unwrap(), r);
        (io, e, s)
    }
    fn synth(&self, (io, e, s): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        let chip = Chip::<L>::construct(e);
        SinsemillaChip::<HashDom, CommitDom, Bases, L>::load(s, &mut l)?;
        match self.op {
            Op::Witness => {
                pt(&chip, &io, &mut l, 0)?;
                Ok(())
            }
            Op::NonId => {
                non(&chip, &io, &mut l, 0)?;
                Ok(())
            }
            Op::Const(n) => {
                let p = if n == 0 { pallas::Point::identity() } else { some_point(n) };
                let p = Point::new_from_constant(chip, l.namespace(|| "constant"), p.to_affine())?;
                out(&io, &mut l, &p, 0)
            }
            Op::AddInc => {
                let (p, q) = (non(&chip, &io, &mut l, 0)?, non(&chip, &io, &mut l, 2)?);
                let r: Point<_, _> = p.add_incomplete(l.namespace(|| "add"), &q)?.into();
                out(&io, &mut l, &r, 4)
            }
            Op::Add => {
                let (p, q) = (pt(&chip, &io, &mut l, 0)?, pt(&chip, &io, &mut l, 2)?);
                let r = p.add(l.namespace(|| "add"), &q)?;
                out(&io, &mut l, &r, 4)
            }
            Op::AddMixed => {
                let (p, q) = (non(&chip, &io, &mut l, 0)?, pt(&chip, &io, &mut l, 2)?);
                let r = p.add(l.namespace(|| "add"), &q)?;
                out(&io, &mut l, &r, 4)
            }
            Op::Same => {
                let (p, q) = (pt(&chip, &io, &mut l, 0)?, pt(&chip, &io, &mut l, 2)?);
                p.constrain_equal(l.namespace(|| "equal"), &q)
            }
            Op::Sign => {
                let s = io.inp(&mut l, 0)?;
                let p = pt(&chip, &io, &mut l, 1)?;
                let r = p.mul_sign(l.namespace(|| "sign"), &s)?;
                out(&io, &mut l, &r, 3)
            }
            Op::Mul => {
                let s = io.inp(&mut l, 0)?;
                let p = non(&chip, &io, &mut l, 1)?;
                let s = ScalarVar::from_base(chip.clone(), l.namespace(|| "scalar"), &s)?;
                let (r, _) = p.mul(l.namespace(|| "mul"), s)?;
                out(&io, &mut l, &r, 3)
            }
            Op::Short => {
                let m = io.inp(&mut l, 0)?;
                let s = io.inp(&mut l, 1)?;
                let s = ScalarFixedShort::new(chip.clone(), l.namespace(|| "scalar"), (m, s))?;
                let (r, _) = FixedPointShort::from_inner(chip.clone(), Short).mul(l.namespace(|| "mul"), s)?;
                out(&io, &mut l, &r, 2)
            }
            Op::Base => {
                let s = io.inp(&mut l, 0)?;
                let r = FixedPointBaseField::from_inner(chip.clone(), BaseField).mul(l.namespace(|| "mul"), s)?;
                out(&io, &mut l, &r, 1)
            }
            Op::Full(s) => {
                let s = ScalarFixed::new(chip.clone(), l.namespace(|| "scalar"), Value::known(s))?;
                let (r, _) = FixedPoint::from_inner(chip.clone(), Full::Base).mul(l.namespace(|| "mul"), s)?;
                out(&io, &mut l, &r, 0)
            }
        }
    }
}
pub type La = PallasLookupRangeCheckConfig;
pub type Lb = PallasLookupRangeCheck4_5BConfig;
/// the integer as a scalar
fn as_scalar(x: Fp) -> Fq {
    Fq::from_repr(x.shadow().to_repr()).unwrap()
}
fn id() -> pallas::Point {
    pallas::Point::identity()
}
pub fn p29(cx: &mut Cx) {
    let k = 11;
    cx.functions(&["halo2_gadgets::ecc::chip::EccChip::configure", "ecc::chip::witness_point::Config::{create_gate, point, point_non_id}", "ecc::chip::add::Config::{create_gate, assign_region}", "ecc::chip::add_incomplete::Config::{create_gate, assign_region}", "ecc::{Point, NonIdentityPoint}::{new, new_from_constant, constrain_equal, add, add_incomplete, extract_p}"]);
    cx.bound("every prover witness; given points generic, equal, opposite and the identity; coordinates off the curve refused; both lookup configurations");
    for i in 0..3u64 {
        let p = if i == 0 { id() } else { some_point(i) };
        decide(cx, &format!("witness point {}", i), &ec::<La>(Op::Witness), k, xy(p), 2);
        decide(cx, &format!("constant point {}", i), &ec::<La>(Op::Const(i)), k, xy(p), 0);
        if i > 0 {
            decide(cx, &format!("witness non-identity point {}", i), &ec::<La>(Op::NonId), k, xy(p), 2);
        }
    }
    let good = xy(some_point(1));
    let zero = Fp::zero();
    let y0 = (Fp::from(5)).sqrt();
    let mut bad = vec![vec![good[0], good[1] + Fp::one()], vec![good[0] + Fp::one(), good[1]], vec![zero, Fp::one()], vec![zero, good[1]], vec![good[0], zero], vec![nth(3), nth(4)], vec![Fp::one(), zero], vec![-Fp::one(), zero], vec![good[1], good[0]]];
    if bool::from(y0.is_some()) {
        bad.push(vec![zero, y0.unwrap() + Fp::one()]);
    }
    for (i, b) in bad.iter().enumerate() {
        refuse(cx, &format!("off-curve point {}", i), &ec::<La>(Op::Witness), k, good.clone(), b.clone());
        refuse(cx, &format!("off-curve point {}, non-identity", i), &ec::<La>(Op::NonId), k, good.clone(), b.clone());
    }
    refuse(cx, "identity as a non-identity point", &ec::<La>(Op::NonId), k, good.clone(), vec![zero, zero]);
    // addition
    let (p, q) = (some_point(1), some_point(2));
    let pairs = [(p, q), (q, p), (p, p), (p, -p), (id(), p), (p, id()), (id(), id()), (p, q.double()), (p.double(), -p)];
    for (i, (a, b)) in pairs.iter().enumerate() {
        let inst: Vec<Fp> = [xy(*a), xy(*b), xy(*a + *b)].concat();
        decide(cx, &format!("complete addition {}", i), &ec::<La>(Op::Add), k, inst.clone(), 4);
        if !bool::from(a.is_identity()) {
            decide(cx, &format!("complete addition, mixed {}", i), &ec::<La>(Op::AddMixed), k, inst.clone(), 4);
            if !bool::from(b.is_identity()) && inst[0] != inst[2] {
                decide(cx, &format!("incomplete addition {}", i), &ec::<La>(Op::AddInc), k, inst.clone(), 4);
            }
        }
        let two = [xy(*a), xy(*b)].concat();
        if a == b {
            decide(cx, &format!("equal points {}", i), &ec::<La>(Op::Same), k, two, 4);
        } else {
            let same = [xy(*a), xy(*a)].concat();
            refuse(cx, &format!("equal points, other points {}", i), &ec::<La>(Op::Same), k, same, two);
        }
    }
}
const KEY: &str = "base-in-incomplete-addition";
const WHAT: &str = "base-in-incomplete-addition: the coordinates of the base in the rows of incomplete addition (x_p, y_p in ecc::chip::mul::incomplete::Config::double_and_add) are not tied to the base, so the result can be a point other than [scalar] base";
pub fn p30(cx: &mut Cx) {
    let k = 11;
    cx.functions(&["ecc::chip::mul::Config::{configure, assign, process_lsb}", "ecc::chip::mul::incomplete::Config::{configure, double_and_add}", "ecc::chip::mul::complete::Config::{configure, assign_region}", "ecc::chip::mul::overflow::Config::{create_gate, overflow_check}", "utilities::lookup_range_check"]);
    cx.bound("every prover witness; given scalars generic, 0, 1, -1, 2^130 and around the ends of the scalar field; generic base; both lookup configurations; acceptance of the honest assignment for 72 more scalars");
    let p = some_point(1);
    let t_q = {
        let q = Fq::zero() - Fq::one();
        let r = q.to_repr();
        let mut low = [0u8; 32];
        low[..31].copy_from_slice(&r[..31]);
        Fp::from_repr(low).unwrap() + Fp::one()
    };
    let ss = [nth(5), Fp::zero(), Fp::one(), -Fp::one(), p2(254) - t_q, p2(254) - t_q - Fp::one(), -t_q, p2(130), nth(6)];
    for (i, s) in ss.iter().enumerate() {
        let inst: Vec<Fp> = [vec![*s], xy(p), xy(p * as_scalar(*s))].concat();
        let (x, y) = (inst[1], inst[2]);
        let cells = move |s: &Sys, st: &State| -> Vec<u32> {
            // the largest run of rows that repeat the base's coordinates
            [x, y].iter().filter_map(|c| chains(s, st, *c).into_iter().next()).filter(|c| c.len() >= 100).map(|c| c[0]).collect()
        };
        let f = Finding { key: KEY, what: WHAT, cells: &cells };
        decide_known(cx, &format!("variable-base multiplication {}", i), &ec::<La>(Op::Mul), k, inst.clone(), 3, f);
        if i == 0 {
            let f = Finding { key: KEY, what: WHAT, cells: &cells };
            decide_known(cx, "variable-base multiplication, 4/5-bit lookups", &ec::<Lb>(Op::Mul), k, inst, 3, f);
        }
    }
    // the honest assignment
    let mut more: Vec<Fp> = (2..10).map(Fp::from).collect();
    for e in [3u32, 4, 124, 125, 126, 127, 129, 130, 131, 132, 252, 253, 254] {
        more.extend([p2(e), p2(e) - Fp::one(), p2(e) + Fp::one()]);
    }
    for i in 0..5u64 {
        more.extend([-Fp::from(i + 2), -t_q - Fp::from(i + 1), -t_q + Fp::from(i + 1), p2(254) - t_q + Fp::from(i + 1), p2(254) - t_q - Fp::from(i + 2)]);
    }
    for (i, s) in more.iter().enumerate() {
        for (j, b) in [p, -p, some_point(2)].iter().enumerate() {
            if i % 3 != j && !tier_thorough() {
                continue;
            }
            let inst: Vec<Fp> = [vec![*s], xy(*b), xy(*b * as_scalar(*s))].concat();
            decide_with(cx, &format!("honest variable-base multiplication {} {}", i, j), &ec::<La>(Op::Mul), k, vec![inst], 3, false);
        }
    }
}
pub fn p31(cx: &mut Cx) {
    let k = 11;
    cx.functions(&["ecc::chip::mul_fixed::Config::{configure, running_sum_coords_gate, coords_check, assign_region_inner, process_window}", "mul_fixed::base_field_elem::Config::{configure, assign}", "mul_fixed::short::Config::{configure, assign, assign_scalar_sign}", "mul_fixed::full_width::Config::{configure, assign}", "ecc::chip::constants::{compute_window_table, compute_lagrange_coeffs, find_zs_and_us}", "utilities::decompose_running_sum"]);
    cx.bound("every prover witness; given scalars generic, 0, 1, -1, largest, smallest; both lookup configurations; magnitudes and signs just outside the range; windows of full-width scalars given; acceptance of the honest assignment for 56 more base field elements, 38 full-width scalars and 32 magnitudes (64 thorough)");
    let b: pallas::Point = base().into();
    for (i, s) in [nth(5), Fp::zero(), -Fp::one(), Fp::one()].iter().enumerate() {
        let inst: Vec<Fp> = [vec![*s], xy(b * as_scalar(*s))].concat();
        decide(cx, &format!("base field element {}", i), &ec::<La>(Op::Base), k, inst.clone(), 1);
        if i == 0 {
            decide(cx, "base field element, 4/5-bit lookups", &ec::<Lb>(Op::Base), k, inst, 1);
        }
    }
    // the honest assignment
    let mut more: Vec<Fp> = (2..10).map(Fp::from).collect();
    for e in [3u32, 6, 43, 44, 129, 130, 131, 132, 133, 252, 253, 254] {
        more.extend([p2(e), p2(e) - Fp::one(), p2(e) + Fp::one(), -p2(e)]);
    }
    for (i, s) in more.iter().enumerate() {
        let inst: Vec<Fp> = [vec![*s], xy(b * as_scalar(*s))].concat();
        if i % 2 == 0 {
            decide_with(cx, &format!("honest base field element {}", i), &ec::<La>(Op::Base), k, vec![inst], 1, false);
        } else {
            decide_with(cx, &format!("honest base field element {}", i), &ec::<Lb>(Op::Base), k, vec![inst], 1, false);
        }
        if i % 3 > 1 && !tier_thorough() {
            continue;
        }
        if i % 3 == 0 {
            decide_with(cx, &format!("honest full-width scalar {}", i), &ec::<La>(Op::Full(as_scalar(*s))), k, vec![xy(b * as_scalar(*s))], 0, false);
            continue;
        }
        decide_with(cx, &format!("honest negated full-width scalar {}", i), &ec::<La>(Op::Full(-as_scalar(*s))), k, vec![xy(-(b * as_scalar(*s)))], 0, false);
    }
    for e in 0..64u32 {
        if e % 2 == 1 && !tier_thorough() {
            continue;
        }
        let m = [1u64 << e, (1u64 << e) - 1, u64::MAX - (1u64 << e)][e as usize % 3];
        let s = if e & 8 == 0 { Fp::one() } else { -Fp::one() };
        let r = b * Fq::from(m);
        let inst: Vec<Fp> = [vec![Fp::from(m), s], xy(if e & 8 == 0 { r } else { -r })].concat();
        decide_with(cx, &format!("honest short {}", e), &ec::<La>(Op::Short), k, vec![inst], 2, false);
    }
    for (i, m) in [0u64, 1, u64::MAX, 0x123456789abcdef, 8].iter().enumerate() {
        for s in [Fp::one(), -Fp::one()] {
            let r = b * Fq::from(*m);
            let r = if s == Fp::one() { r } else { -r };
            let inst: Vec<Fp> = [vec![Fp::from(*m), s], xy(r)].concat();
            decide(cx, &format!("short {} {:?}", i, s == Fp::one()), &ec::<La>(Op::Short), k, inst.clone(), 2);
        }
    }
    let good: Vec<Fp> = [vec![Fp::from(9), Fp::one()], xy(b * Fq::from(9))].concat();
    let max = Fp::from(u64::MAX);
    let two = Fp::from(2);
    let bad = [
        [max + Fp::one(), Fp::one()],
        [max + two, -Fp::one()],
        [p2(66), Fp::one()],
        [-Fp::one(), Fp::one()],
        [nth(7), Fp::one()],
        [Fp::from(9), Fp::zero()],
        [Fp::from(9), two],
        [Fp::zero(), Fp::zero()],
        [Fp::from(9), nth(8)],
    ];
    for (i, b) in bad.iter().enumerate() {
        refuse(cx, &format!("short refusal {}", i), &ec::<La>(Op::Short), k, good.clone(), b.to_vec());
    }
    // the sign of a point
    for i in 0..3u64 {
        let p = if i == 0 { id() } else { some_point(i) };
        for s in [Fp::one(), -Fp::one()] {
            let r = if s == Fp::one() { p } else { -p };
            let inst: Vec<Fp> = [vec![s], xy(p), xy(r)].concat();
            decide(cx, &format!("sign {} {:?}", i, s == Fp::one()), &ec::<La>(Op::Sign), k, inst, 3);
        }
        let inst: Vec<Fp> = [vec![Fp::one()], xy(p), xy(p)].concat();
        for (j, s) in [Fp::zero(), two, nth(9), -two].iter().enumerate() {
            refuse(cx, &format!("sign refusal {} {}", i, j), &ec::<La>(Op::Sign), k, inst.clone(), [vec![*s], xy(p)].concat());
        }
    }
    // full-width scalars: the windows are given
    let windows = |s: &Sys, st: &State| -> Vec<u32> {
        let digits: Vec<Fp> = (0..8).map(Fp::from).collect();
        (0..s.nclass as u32).filter(|v| matches!(st.cand.get(v), Some(c) if c.len() == 8 && digits.iter().all(|d| c.contains(d)))).collect()
    };
    for (i, s) in [as_scalar(nth(10)), Fq::zero(), Fq::one(), -Fq::one(), Fq::zero() - as_scalar(p2(200))].iter().enumerate() {
        decide_given(cx, &format!("full-width scalar {}", i), &ec::<La>(Op::Full(*s)), k, xy(b * *s), 0, &windows);
    }
}
