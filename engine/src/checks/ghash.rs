//! P27: the Poseidon gadget. P28: the Poseidon hash outside of a circuit.
use super::gadget::*;
use super::gutil::*;
use crate::core::*;
use ff::{Field, FromUniformBytes, PrimeField};
use halo2_gadgets::poseidon::primitives::{self as prim, ConstantLength, P128Pow5T3, Spec};
use halo2_gadgets::poseidon::{Hash, PaddedWord, PoseidonInstructions, Pow5Chip, Pow5Config, Sponge, StateWord};
use halo2_proofs::circuit::{AssignedCell, Layouter};
use halo2_proofs::plonk::{ConstraintSystem, Error};
use pasta_curves::{Fp, Fq};

// ---------------------------------------------------------------- reference
/// the self-shrinking Grain LFSR of the Poseidon paper, appendix E, bit by bit
struct Lfsr(std::collections::VecDeque<bool>);
impl Lfsr {
    fn new(bits: u32, t: u32, rf: u32, rp: u32) -> Lfsr {
        let mut s = std::collections::VecDeque::new();
        for (v, n) in [(1u32, 2), (0, 4), (bits, 12), (t, 12), (rf, 10), (rp, 10), (u32::MAX, 30)] {
            for i in (0..n).rev() {
                s.push_back(v >> i & 1 == 1);
            }
        }
        let mut l = Lfsr(s);
        for _ in 0..160 {
            l.step();
        }
        l
    }
    fn step(&mut self) -> bool {
        let b = [62, 51, 38, 23, 13, 0].iter().fold(false, |a, i| a ^ self.0[*i]);
        self.0.pop_front();
        self.0.push_back(b);
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let (a, b) = (self.step(), self.step());
            if a {
                return b;
            }
        }
    }
    /// 255 bits, most significant first
    fn number(&mut self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in (0..255).rev() {
            if self.bit() {
                o[i / 8] |= 1 << (i % 8);
            }
        }
        o
    }
}
pub struct Params<F> {
    rf: usize,
    rp: usize,
    rc: Vec<Vec<F>>,
    mds: Vec<Vec<F>>,
}
pub fn params<F: PrimeField<Repr = [u8; 32]> + FromUniformBytes<64>>(t: usize, rf: usize, rp: usize, skip: usize) -> Params<F> {
    let mut g = Lfsr::new(255, t as u32, rf as u32, rp as u32);
    let mut elem = || loop {
        if let Some(x) = Option::<F>::from(F::from_repr(g.number())) {
            return x;
        }
    };
    let rc = (0..rf + rp).map(|_| (0..t).map(|_| elem()).collect()).collect();
    let mut left = skip;
    loop {
        let v: Vec<F> = (0..2 * t)
            .map(|_| {
                let mut b = [0u8; 64];
                b[..32].copy_from_slice(&g.number());
                F::from_uniform_bytes(&b)
            })
            .collect();
        if (0..2 * t).any(|i| (0..i).any(|j| v[i] == v[j])) {
            continue;
        }
        if left > 0 {
            left -= 1;
            continue;
        }
        let mds = (0..t).map(|i| (0..t).map(|j| (v[i] + v[t + j]).invert().unwrap()).collect()).collect();
        return Params { rf, rp, rc, mds };
    }
}
fn pow5<F: Field>(x: F) -> F {
    let y = x * x;
    y * y * x
}
pub fn permute<F: Field>(p: &Params<F>, s: &[F]) -> Vec<F> {
    let mut s = s.to_vec();
    for r in 0..p.rf + p.rp {
        let full = r < p.rf / 2 || r >= p.rf / 2 + p.rp;
        let v: Vec<F> = s
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let x = *x + p.rc[r][i];
                if full || i == 0 {
                    pow5(x)
                } else {
                    x
                }
            })
            .collect();
        s = p.mds.iter().map(|m| m.iter().zip(&v).map(|(a, b)| *a * *b).reduce(|a, b| a + b).unwrap()).collect();
    }
    s
}
/// sponge over words that already fill whole blocks
fn sponge<F: PrimeField>(p: &Params<F>, cap: F, words: &[F], out: usize) -> Vec<F> {
    let t = p.mds.len();
    let mut s = vec![F::ZERO; t];
    s[t - 1] = cap;
    for b in words.chunks(t - 1) {
        for (x, w) in s.iter_mut().zip(b) {
            *x = *x + *w;
        }
        s = permute(p, &s);
    }
    let mut o = s[..t - 1].to_vec();
    while o.len() < out {
        s = permute(p, &s);
        o.extend_from_slice(&s[..t - 1]);
    }
    o.truncate(out);
    o
}
fn capacity<F: PrimeField>(l: usize) -> F {
    (0..64).fold(F::from(l as u64), |a, _| a.double())
}
fn padded<F: PrimeField>(p: &Params<F>, m: &[F]) -> Vec<F> {
    let r = p.mds.len() - 1;
    let mut v = m.to_vec();
    while v.len() % r != 0 || v.is_empty() {
        v.push(F::ZERO);
    }
    v
}

// ---------------------------------------------------------------- specifications of other sizes
macro_rules! spec {
    ($n:ident, $t:expr, $rf:expr, $rp:expr, $skip:expr) => {
        #[derive(Debug)]
        pub struct $n;
        impl<F: PrimeField + FromUniformBytes<64> + Ord> Spec<F, $t, { $t - 1 }> for $n {
            fn full_rounds() -> usize {
                $rf
            }
            fn partial_rounds() -> usize {
                $rp
            }
            fn sbox(v: F) -> F {
                v.pow_vartime([5])
            }
            fn secure_mds() -> usize {
                $skip
            }
            fn constants() -> (Vec<[F; $t]>, prim::Mds<F, $t>, prim::Mds<F, $t>) {
                prim::generate_constants::<F, Self, $t, { $t - 1 }>()
            }
        }
    };
}
spec!(W2, 2, 6, 4, 0);
spec!(W3, 3, 4, 10, 2);
spec!(W4, 4, 8, 6, 1);
spec!(W5, 5, 8, 2, 0);

// ---------------------------------------------------------------- gadgets
enum Op {
    Permute,
    /// absorb cells and constants, squeeze
    Sponge(Vec<Option<u64>>, usize),
}
struct Pos<S, const T: usize, const R: usize, const L: usize> {
    op: Op,
    s: std::marker::PhantomData<S>,
}
fn pos<S, const T: usize, const R: usize, const L: usize>(op: Op) -> Pos<S, T, R, L> {
    Pos { op, s: Default::default() }
}
fn set<const T: usize, const R: usize, S: Spec<Fp, T, R>>(m: &mut ConstraintSystem<Fp>) -> (Io, Pow5Config<Fp, T, R>) {
    let io = Io::new(m);
    let state: Vec<_> = (0..T).map(|_| m.advice_column()).collect();
    let sb = m.advice_column();
    let a: Vec<_> = (0..T).map(|_| m.fixed_column()).collect();
    let b: Vec<_> = (0..T).map(|_| m.fixed_column()).collect();
    m.enable_constant(b[0]);
    let c = Pow5Chip::configure::<S>(m, state.try_into().unwrap(), sb, a.try_into().unwrap(), b.try_into().unwrap());
    (io, c)
}
impl<S: Spec<Fp, T, R> + 'static, const T: usize, const R: usize, const L: usize> Gadget for Pos<S, T, R, L> {
    type Config = (Io, Pow5Config<Fp, T, R>);
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        set::<T, R, S>(m)
    }
    fn synth(&self, (io, c): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        let chip = Pow5Chip::construct(c);
        match &self.op {
            Op::Permute => {
                let s = (0..T).map(|i| io.inp(&mut l, i).map(StateWord::from)).collect::<Result<Vec<_>, _>>()?;
                let s = <Pow5Chip<Fp, T, R> as PoseidonInstructions<Fp, S, T, R>>::permute(&chip, &mut l, &s.try_into().unwrap())?;
                for (i, w) in s.iter().enumerate() {
                    let c: Cell = w.clone().into();
                    io.out(&mut l, &c, T + i)?;
                }
                Ok(())
            }
            Op::Sponge(ws, n) => {
                let mut s = Sponge::<Fp, _, S, _, ConstantLength<L>, T, R>::new(chip, l.namespace(|| "sponge"))?;
                let mut i = 0;
                for w in ws {
                    let w = match w {
                        None => {
                            i += 1;
                            PaddedWord::Message(io.inp(&mut l, i - 1)?)
                        }
                        Some(x) => PaddedWord::Padding(Fp::from(*x)),
                    };
                    s.absorb(l.namespace(|| "absorb"), w)?;
                }
                let mut s = s.finish_absorbing(l.namespace(|| "finish"))?;
                for j in 0..*n {
                    let c = s.squeeze(l.namespace(|| "squeeze"))?;
                    io.out(&mut l, &c, i + j)?;
                }
                Ok(())
            }
        }
    }
}
struct HashOf<S, const T: usize, const R: usize, const L: usize>(std::marker::PhantomData<S>);
impl<S: Spec<Fp, T, R> + 'static, const T: usize, const R: usize, const L: usize> Gadget for HashOf<S, T, R, L> {
    type Config = (Io, Pow5Config<Fp, T, R>);
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        set::<T, R, S>(m)
    }
    fn synth(&self, (io, c): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        let chip = Pow5Chip::construct(c);
        let m = (0..L).map(|i| io.inp(&mut l, i)).collect::<Result<Vec<AssignedCell<Fp, Fp>>, _>>()?;
        let h = Hash::<_, _, S, ConstantLength<L>, T, R>::init(chip, l.namespace(|| "init"))?;
        let o = h.hash(l.namespace(|| "hash"), m.try_into().unwrap())?;
        io.out(&mut l, &o, L)
    }
}
/// for every input: the honest assignment is accepted with the reference's outputs, and no other outputs are accepted
fn both<G: Gadget + 'static>(cx: &mut Cx, name: &str, g: &G, k: u32, n: usize, f: &dyn Fn(&[Fp]) -> Vec<Fp>) {
    cx.run_dyn(&format!("{}: completeness", name), &|h: &mut H| {
        let mut inst = h.fps("x", n);
        inst.extend(f(&inst));
        honest(h, g, k, inst);
    });
    let gen: Vec<Fp> = (0..n as u64).map(|i| nth(i + 3)).collect();
    let inst = |v: &[Fp]| [v.to_vec(), f(v)].concat();
    for (i, v) in [gen.clone(), vec![Fp::zero(); n]].iter().enumerate() {
        decide(cx, &format!("{}: values {}", name, i), g, k, inst(v), n);
    }
    functional(cx, &format!("{}: uniqueness", name), g, k, inst(&gen), n);
}
fn hashes<S: Spec<Fp, T, R> + 'static, const T: usize, const R: usize, const L: usize>(cx: &mut Cx, tag: &str, p: &Params<Fp>) {
    let f = |x: &[Fp]| sponge(p, capacity(L), &padded(p, x), 1);
    both(cx, &format!("{} hash of {} words", tag, L), &HashOf::<S, T, R, L>(Default::default()), 9, L, &f);
}
pub fn p27(cx: &mut Cx) {
    cx.functions(&[
        "halo2_gadgets::poseidon::{Hash::{init, hash}, Sponge::{new, absorb, finish_absorbing, squeeze}}",
        "halo2_gadgets::poseidon::pow5::{Pow5Chip::{configure, permute, initial_state, add_input, get_output}, Pow5State::{load, round, full_round, partial_round}}",
    ]);
    let p3 = params::<Fp>(3, 8, 56, 0);
    let (w2, w3, w4, w5) = (params::<Fp>(2, 6, 4, 0), params::<Fp>(3, 4, 10, 2), params::<Fp>(4, 8, 6, 1), params::<Fp>(5, 8, 2, 0));
    both(cx, "permutation", &pos::<P128Pow5T3, 3, 2, 2>(Op::Permute), 7, 3, &|x| permute(&p3, x));
    both(cx, "permutation, width 2", &pos::<W2, 2, 1, 2>(Op::Permute), 6, 2, &|x| permute(&w2, x));
    both(cx, "permutation, width 3, other rounds", &pos::<W3, 3, 2, 2>(Op::Permute), 6, 3, &|x| permute(&w3, x));
    both(cx, "permutation, width 4", &pos::<W4, 4, 3, 2>(Op::Permute), 6, 4, &|x| permute(&w4, x));
    both(cx, "permutation, width 5", &pos::<W5, 5, 4, 2>(Op::Permute), 6, 5, &|x| permute(&w5, x));
    hashes::<P128Pow5T3, 3, 2, 1>(cx, "P128", &p3);
    hashes::<P128Pow5T3, 3, 2, 2>(cx, "P128", &p3);
    hashes::<P128Pow5T3, 3, 2, 3>(cx, "P128", &p3);
    hashes::<P128Pow5T3, 3, 2, 4>(cx, "P128", &p3);
    hashes::<W2, 2, 1, 1>(cx, "width 2", &w2);
    hashes::<W2, 2, 1, 3>(cx, "width 2", &w2);
    hashes::<W4, 4, 3, 1>(cx, "width 4", &w4);
    hashes::<W4, 4, 3, 2>(cx, "width 4", &w4);
    hashes::<W4, 4, 3, 7>(cx, "width 4", &w4);
    hashes::<W5, 5, 4, 6>(cx, "width 5", &w5);
    for (tag, ws, n) in [
        ("one block, three out", vec![None, None], 3),
        ("two blocks, five out", vec![None, Some(7), Some(1 << 40), None], 5),
        ("constants only last", vec![None, None, Some(0), Some(9)], 2),
        ("three blocks", vec![None, None, None, Some(1), None, None], 1),
    ] {
        let l = 5;
        let f = |x: &[Fp]| {
            let mut it = x.iter();
            let w: Vec<Fp> = ws.iter().map(|w| w.map(Fp::from).unwrap_or_else(|| *it.next().unwrap())).collect();
            sponge(&w3, capacity(l), &w, n)
        };
        let m = ws.iter().filter(|w| w.is_none()).count();
        both(cx, &format!("sponge, {}", tag), &pos::<W3, 3, 2, 5>(Op::Sponge(ws.clone(), n)), 8, m, &f);
    }
    // the statements are not vacuous
    cx.witness("permutation with another output", |h| {
        let p = params::<Fp>(3, 4, 10, 2);
        let mut x = h.fps("x", 3);
        let mut y = permute(&p, &x);
        y[1] += Fp::one();
        x.extend(y);
        honest(h, &pos::<W3, 3, 2, 2>(Op::Permute), 6, x);
    });
}

// ---------------------------------------------------------------- outside of a circuit
trait Sw: PrimeField<Repr = [u8; 32]> + FromUniformBytes<64> + Ord {
    fn fresh(h: &mut H, n: usize) -> Vec<Self>;
    fn same(h: &mut H, l: &str, a: Self, b: Self);
}
impl Sw for Fp {
    fn fresh(h: &mut H, n: usize) -> Vec<Fp> {
        h.fps("x", n)
    }
    fn same(h: &mut H, l: &str, a: Fp, b: Fp) {
        h.sweep(l, a, b)
    }
}
impl Sw for Fq {
    fn fresh(h: &mut H, n: usize) -> Vec<Fq> {
        (0..n).map(|i| h.fq(&format!("x{}", i))).collect()
    }
    fn same(h: &mut H, l: &str, a: Fq, b: Fq) {
        h.sweep_q(l, a, b)
    }
}
fn prims<F: Sw, S: Spec<F, T, R>, const T: usize, const R: usize>(cx: &mut Cx, tag: &str, p: &Params<F>) {
    cx.run(&format!("{}: constants", tag), |h| {
        let (rc, mds, inv) = S::constants();
        h.ok("rounds", S::full_rounds() == p.rf && S::partial_rounds() == p.rp && rc.len() == p.rf + p.rp);
        h.ok("round constants", rc.iter().zip(&p.rc).all(|(a, b)| a[..] == b[..]));
        h.ok("matrix", mds.iter().zip(&p.mds).all(|(a, b)| a[..] == b[..]));
        for i in 0..T {
            for j in 0..T {
                let x = (0..T).fold(F::ZERO, |a, k| a + mds[i][k] * inv[k][j]);
                h.ok("inverse", x == if i == j { F::ONE } else { F::ZERO });
            }
        }
    });
    cx.run(&format!("{}: S-box", tag), |h| {
        let x = F::fresh(h, 1)[0];
        F::same(h, "x^5", S::sbox(x), x * x * x * x * x);
    });
    cx.run(&format!("{}: permutation", tag), |h| {
        let x = F::fresh(h, T);
        let (rc, mds, _) = S::constants();
        let mut s: [F; T] = x.clone().try_into().unwrap();
        prim::test_only_permute::<F, S, T, R>(&mut s, &mds, &rc);
        for (i, (a, b)) in s.iter().zip(permute(p, &x)).enumerate() {
            F::same(h, &format!("word {}", i), *a, b);
        }
    });
    macro_rules! len {
        ($($l:expr),*) => {$(
            cx.run(&format!("{}: hash of {} words", tag, $l), |h| {
                let x = F::fresh(h, $l);
                let y = prim::Hash::<F, S, ConstantLength<$l>, T, R>::init().hash(x.clone().try_into().unwrap());
                F::same(h, "digest", y, sponge(p, capacity($l), &padded(p, &x), 1)[0]);
            });
        )*};
    }
    len!(1, 2, 3, 4, 5, 6, 9);
    cx.witness(&format!("{}: another capacity", tag), |h| {
        let x = F::fresh(h, 2);
        let y = prim::Hash::<F, S, ConstantLength<2>, T, R>::init().hash(x.clone().try_into().unwrap());
        F::same(h, "digest", y, sponge(p, capacity(3), &padded(p, &x), 1)[0]);
    });
}
pub fn p28(cx: &mut Cx) {
    cx.functions(&[
        "halo2_poseidon::{Hash::{init, hash}, Sponge::{new, absorb, finish_absorbing, squeeze}, poseidon_sponge, permute, ConstantLength, generate_constants}",
        "halo2_poseidon::{P128Pow5T3, fp, fq constants, grain::Grain, mds::generate_mds}",
    ]);
    prims::<Fp, P128Pow5T3, 3, 2>(cx, "P128Pow5T3 over Fp", &params(3, 8, 56, 0));
    prims::<Fq, P128Pow5T3, 3, 2>(cx, "P128Pow5T3 over Fq", &params(3, 8, 56, 0));
    prims::<Fp, W2, 2, 1>(cx, "width 2 over Fp", &params(2, 6, 4, 0));
    prims::<Fq, W3, 3, 2>(cx, "width 3 over Fq", &params(3, 4, 10, 2));
    prims::<Fq, W4, 4, 3>(cx, "width 4 over Fq", &params(4, 8, 6, 1));
    prims::<Fp, W5, 5, 4>(cx, "width 5 over Fp", &params(5, 8, 2, 0));
}
