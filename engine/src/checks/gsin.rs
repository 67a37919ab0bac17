//! P32: Sinsemilla hashes and commitments. P33: Merkle paths.
use super::gadget::*;
use super::gdom::*;
use super::gecc::{out, La, Lb};
use super::gutil::{nth, p2, point, some_point, xy, Io};
use crate::core::*;
use ff::{Field, PrimeField};
use group::Group;
use halo2_gadgets::ecc::chip::{EccChip, EccConfig};
use halo2_gadgets::ecc::{NonIdentityPoint, Point, ScalarFixed};
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_gadgets::sinsemilla::merkle::chip::{MerkleChip, MerkleConfig};
use halo2_gadgets::sinsemilla::merkle::{MerkleInstructions, MerklePath};
use halo2_gadgets::sinsemilla::{CommitDomain, HashDomain, Message, MessagePiece};
use halo2_gadgets::utilities::lookup_range_check::PallasLookupRangeCheck;
use halo2_proofs::circuit::{Layouter, Value};
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Error};
use pasta_curves::arithmetic::CurveExt;
use pasta_curves::{pallas, Fp, Fq};
use std::marker::PhantomData;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// pieces of so many words, the initial point private: pieces, x, y if private; out: x, y, running sums
    Hash(Vec<usize>, bool),
    /// pieces; out: x, y of the commitment, x of the short commitment
    Commit(Vec<usize>, Fq),
    /// left, right; out: the parent
    Layer(usize),
    /// leaf; out: the root (depth 2)
    Path(u32, [Fp; 2], usize),
}
/// `private`: configured to allow private initial points
pub struct Sin<L, const PRIVATE: bool> {
    pub op: Op,
    pub l: PhantomData<L>,
}
fn sin<L, const P: bool>(op: Op) -> Sin<L, P> {
    Sin { op, l: PhantomData }
}
type S<L> = SinsemillaChip<HashDom, CommitDom, Bases, L>;
type M<L> = MerkleChip<HashDom, CommitDom, Bases, L>;
impl<L: PallasLookupRangeCheck + 'static, const P: bool> Sin<L, P> {
    fn message(&self, s: &S<L>, io: &Io, l: &mut impl Layouter<Fp>, words: &[usize]) -> Result<Message<pallas::Affine, S<L>, 10, 253>, Error> {
        let mut pieces = vec![];
        for (i, n) in words.iter().enumerate() {
            let v = io.peek(l, i)?;
            let p = MessagePiece::from_field_elem(s.clone(), l.namespace(|| "piece"), v, *n)?;
            io.out(l, &p.inner().cell_value(), i)?;
            pieces.push(p);
        }
        Ok(Message::from_pieces(s.clone(), pieces))
    }
}
impl<L: PallasLookupRangeCheck + 'static, const PRIVATE: bool> Gadget for Sin<L, PRIVATE> {
    type Config = (Io, EccConfig<Bases, L>, [SinsemillaConfig<HashDom, CommitDom, Bases, L>; 2], [MerkleConfig<HashDom, CommitDom, Bases, L>; 2]);
    fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
        let io = Io::new(m);
        let a: Vec<Column<Advice>> = (0..10).map(|_| m.advice_column()).collect();
        for a in &a {
            m.enable_equality(*a);
        }
        let c = m.fixed_column();
        m.enable_constant(c);
        let t = (m.lookup_table_column(), m.lookup_table_column(), m.lookup_table_column());
        let l: Vec<_> = (0..8).map(|_| m.fixed_column()).collect();
        let r = L::configure(m, a[9], t.0);
        let s1 = S::<L>::configure(m, [a[0], a[1], a[2], a[3], a[4]], a[2], l[0], t, r.clone(), PRIVATE);
        let s2 = S::<L>::configure(m, [a[5], a[6], a[7], a[8], a[9]], a[7], l[1], t, r.clone(), PRIVATE);
        let m1 = M::<L>::configure(m, s1.clone());
        let m2 = M::<L>::configure(m, s2.clone());
        let e = EccChip::<Bases, L>::configure(m, a.try_into().unwrap(), l.try_into().unwrap(), r);
        (io, e, [s1, s2], [m1, m2])
    }
    fn synth(&self, (io, e, s, m): Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
        let e = EccChip::<Bases, L>::construct(e);
        S::<L>::load(s[0].clone(), &mut l)?;
        let c = S::<L>::construct(s[0].clone());
        match &self.op {
            Op::Hash(words, private) => {
                let msg = self.message(&c, &io, &mut l, words)?;
                let mut n = words.len();
                let d = HashDomain::new(c, e.clone(), &HashDom);
                let (p, zs) = if *private {
                    let v = point(io.peek(&mut l, n)?, io.peek(&mut l, n + 1)?);
                    let q = NonIdentityPoint::new(e.clone(), l.namespace(|| "q"), v)?;
                    out(&io, &mut l, &q.clone().into(), n)?;
                    n += 2;
                    d.hash_to_point_with_private_init(l.namespace(|| "hash"), q.inner(), msg)?
                } else {
                    d.hash_to_point(l.namespace(|| "hash"), msg)?
                };
                let p: Point<_, _> = p.into();
                out(&io, &mut l, &p, n)?;
                n += 2;
                for z in zs.iter().flatten() {
                    io.out(&mut l, z, n)?;
                    n += 1;
                }
                Ok(())
            }
            Op::Commit(words, r) => {
                let msg = self.message(&c, &io, &mut l, words)?;
                let n = words.len();
                let d = CommitDomain::new(c, e.clone(), &CommitDom);
                let r = ScalarFixed::new(e.clone(), l.namespace(|| "r"), Value::known(*r))?;
                let (p, _) = d.commit(l.namespace(|| "commit"), msg, r)?;
                out(&io, &mut l, &p, n)
            }
            Op::Layer(n) => {
                let (x, y) = (io.inp(&mut l, 0)?, io.inp(&mut l, 1)?);
                let m = M::<L>::construct(m[0].clone());
                let r = MerkleInstructions::<pallas::Affine, 32, 10, 253>::hash_layer(&m, l.namespace(|| "layer"), dom_q(), *n, x, y)?;
                io.out(&mut l, &r, 2)
            }
            Op::Path(pos, path, par) => {
                let leaf = io.inp(&mut l, 0)?;
                let chips = [M::<L>::construct(m[0].clone()), M::<L>::construct(m[1].clone())];
                let (pos, path) = (Value::known(*pos), Value::known(*path));
                let r = if *par == 2 {
                    MerklePath::<_, _, 2, 10, 253, 2>::construct(chips, HashDom, pos, path).calculate_root(l.namespace(|| "root"), leaf)?
                } else {
                    MerklePath::<_, _, 2, 10, 253, 1>::construct([chips[0].clone()], HashDom, pos, path).calculate_root(l.namespace(|| "root"), leaf)?
                };
                io.out(&mut l, &r, 1)
            }
        }
    }
}
// ---------------------------------------------------------------- reference
fn gen(w: u32) -> pallas::Point {
    pallas::Point::hash_to_curve("z.cash:SinsemillaS")(&w.to_le_bytes())
}
fn hash(q: pallas::Point, words: &[u32]) -> pallas::Point {
    words.iter().fold(q, |a, w| a + gen(*w) + a)
}
fn bits(x: Fp, n: usize) -> Vec<bool> {
    let r = x.shadow().to_repr();
    (0..n).map(|i| r[i / 8] >> (i % 8) & 1 == 1).collect()
}
fn words(b: &[bool]) -> Vec<u32> {
    b.chunks(10).map(|c| c.iter().rev().fold(0, |a, b| a * 2 + *b as u32)).collect()
}
fn of_bits(b: &[bool]) -> Fp {
    b.iter().rev().fold(Fp::zero(), |a, b| a.double() + Fp::from(*b as u64))
}
fn pieces(shape: &[usize], fill: u64) -> Vec<Fp> {
    shape
        .iter()
        .enumerate()
        .map(|(i, n)| match fill {
            0 => Fp::zero(),
            1 => p2(10 * *n as u32) - Fp::one(),
            f => of_bits(&bits(nth(20 + 16 * f + i as u64), 10 * n)),
        })
        .collect()
}
fn message(shape: &[usize], p: &[Fp]) -> Vec<u32> {
    shape.iter().zip(p).flat_map(|(n, p)| words(&bits(*p, 10 * n))).collect()
}
fn sums(shape: &[usize], p: &[Fp]) -> Vec<Fp> {
    shape.iter().zip(p).flat_map(|(n, p)| (0..*n).map(|i| of_bits(&bits(*p, 10 * n)[10 * i..])).collect::<Vec<_>>()).collect()
}
fn x_of(p: pallas::Point) -> Fp {
    xy(p)[0]
}
fn layer(l: usize, a: Fp, b: Fp) -> Fp {
    let m = [bits(Fp::from(l as u64), 10), bits(a, 255), bits(b, 255)].concat();
    x_of(hash(dom_q().into(), &words(&m)))
}
pub fn p32(cx: &mut Cx) {
    let k = 11;
    cx.functions(&["sinsemilla::chip::SinsemillaChip::{configure, load, hash_to_point, hash_to_point_with_private_init}", "sinsemilla::chip::generator_table::GeneratorTableConfig::{configure, load}", "sinsemilla::chip::hash_to_point::{hash_message, hash_message_with_private_init, public_q_initialization, private_q_initialization, hash_all_pieces, hash_piece}", "sinsemilla::{Message, MessagePiece, HashDomain, CommitDomain}"]);
    cx.bound("every prover witness; given pieces all zero, all one, generic; messages of one to three pieces of one to 25 words; both lookup configurations, private initial points allowed or not; pieces just and far too long; windows of the randomness given");
    let q: pallas::Point = dom_q().into();
    let shapes: [&[usize]; 7] = [&[1], &[2], &[1, 1], &[3, 1, 2], &[25], &[25, 2, 25], &[1, 25, 1]];
    for s in shapes {
        for fill in 0..3 {
            if fill == 1 && s.len() == 3 && s[1] == 2 && !tier_thorough() {
                continue;
            }
            let p = pieces(s, fill);
            let m = message(s, &p);
            let z = sums(s, &p);
            let h = hash(q, &m);
            let inst: Vec<Fp> = [p.clone(), xy(h), z.clone()].concat();
            let name = format!("pieces {:?} {}", s, fill);
            decide(cx, &format!("hash {}", name), &sin::<La, false>(Op::Hash(s.to_vec(), false)), k, inst.clone(), s.len());
            if fill == 2 {
                decide(cx, &format!("hash, private points allowed {}", name), &sin::<Lb, true>(Op::Hash(s.to_vec(), false)), k, inst, s.len());
                let q = some_point(3);
                let inst: Vec<Fp> = [p.clone(), xy(q), xy(hash(q, &m)), z].concat();
                decide(cx, &format!("hash from a private point {}", name), &sin::<Lb, true>(Op::Hash(s.to_vec(), true)), k, inst, s.len() + 2);
            }
        }
    }
    // pieces too long
    for s in [vec![1], vec![2, 1], vec![3]] {
        for i in 0..s.len() {
            let p = pieces(&s, 2);
            let inst: Vec<Fp> = [p.clone(), xy(hash(q, &message(&s, &p))), sums(&s, &p)].concat();
            for (j, x) in [p2(10 * s[i] as u32), -Fp::one(), p2(10 * s[i] as u32) + p[i], nth(9)].iter().enumerate() {
                let mut bad = p.clone();
                bad[i] = *x;
                refuse(cx, &format!("piece {} of {:?} too long {}", i, s, j), &sin::<La, false>(Op::Hash(s.to_vec(), false)), k, inst.clone(), bad);
            }
        }
    }
    // commitments: the windows of the randomness are given
    let windows = |s: &Sys, st: &State| -> Vec<u32> {
        let digits: Vec<Fp> = (0..8).map(Fp::from).collect();
        (0..s.nclass as u32).filter(|v| matches!(st.cand.get(v), Some(c) if c.len() == 8 && digits.iter().all(|d| c.contains(d)))).collect()
    };
    let r = Fq::from_repr(nth(11).shadow().to_repr()).unwrap();
    for (i, r) in [r, Fq::zero()].iter().enumerate() {
        let s = vec![2, 1];
        let p = pieces(&s, 2);
        let c = hash(q, &message(&s, &p)) + pallas::Point::from(blind()) * *r;
        let inst: Vec<Fp> = [p, xy(c)].concat();
        decide_given(cx, &format!("commitment {}", i), &sin::<La, false>(Op::Commit(s.clone(), *r)), k, inst, s.len(), &windows);
    }
}
pub fn p33(cx: &mut Cx) {
    let k = 11;
    cx.functions(&["sinsemilla::merkle::chip::MerkleChip::{configure, hash_layer, swap}", "sinsemilla::merkle::MerklePath::{construct, calculate_root}", "sinsemilla::message::MessagePiece::from_subpieces", "utilities::RangeConstrained::{bitrange_of, witness_short}", "utilities::cond_swap::CondSwapChip::{configure, swap}", "sinsemilla::chip::hash_to_point"]);
    cx.bound("every prover witness; nodes whose 255-bit encoding is unique (uniqueness), generic and extreme nodes (honest acceptance); levels 0, 5, 7, 31, 1023; paths of two layers on one chip or two, all positions; siblings, position bits and the inner node's encoding given");
    // values whose 255-bit encoding is unique; the alternatives suggest what a forger may try
    let hi = [-Fp::one(), -nth_small(1), -nth_small(2), -p2(100)];
    let alts = |n: usize, a: Fp, b: Fp| -> Vec<(Sin<La, false>, Vec<Fp>)> {
        let two = Fp::one().double();
        let mut v = vec![(n, b, a), (n ^ 1, a, b)];
        for d in [Fp::one(), two, p2(5), p2(239), p2(240), p2(249), p2(250), p2(254)] {
            v.push((n, a - d, b));
            v.push((n, a, b - d));
        }
        v.push((n, a - p2(250), b - Fp::one()));
        v.into_iter().map(|(n, a, b)| (sin(Op::Layer(n)), vec![a, b, layer(n, a, b)])).collect()
    };
    for (i, (a, b)) in [(hi[0], hi[1]), (hi[1], hi[1]), (hi[2], hi[3]), (hi[3], hi[0])].iter().enumerate() {
        for n in [0usize, 5, 31, 1023] {
            if n > 5 && i > 0 && !tier_thorough() {
                continue;
            }
            decide_alts(cx, &format!("layer {} {}", n, i), &sin::<La, false>(Op::Layer(n)), k, vec![*a, *b, layer(n, *a, *b)], 2, &|_, _| vec![], &alts(n, *a, *b));
        }
    }
    decide(cx, "layer 7, private points allowed", &sin::<Lb, true>(Op::Layer(7)), k, vec![hi[2], hi[0], layer(7, hi[2], hi[0])], 2);
    // the honest assignment
    for (i, (a, b)) in [(Fp::zero(), Fp::one()), (nth(30), nth(31)), (-Fp::one(), Fp::zero()), (p2(254), p2(253)), (nth(32), nth(32))].iter().enumerate() {
        decide_with(cx, &format!("honest layer {}", i), &sin::<La, false>(Op::Layer(i)), k, vec![vec![*a, *b, layer(i, *a, *b)]], 2, false);
    }
    for pos in 0..4u32 {
        for par in [1, 2] {
            let (leaf, s) = (nth(40), [nth(41), nth(42)]);
            decide_with(cx, &format!("honest path {} {}", pos, par), &sin::<La, false>(Op::Path(pos, s, par)), k, vec![vec![leaf, root(pos, leaf, s)]], 1, false);
            // the siblings, the position and the encoding of the inner node are given
            let (leaf, s) = (hi[0], [hi[1], hi[2]]);
            let n = inner(pos, leaf, s[0]);
            let (a, b) = if pos & 2 == 0 { (n, s[1]) } else { (s[1], n) };
            let m = [bits(Fp::one(), 10), bits(a, 255), bits(b, 255)].concat();
            let own = [s[0], s[1], of_bits(&m[..250]), of_bits(&m[250..270]), of_bits(&m[270..])];
            let cells = |s: &Sys, st: &State| -> Vec<u32> {
                let bit = |v: u32| matches!(st.cand.get(&v), Some(c) if c.len() == 2 && c.contains(&Fp::zero()) && c.contains(&Fp::one()));
                (0..s.nclass as u32).filter(|v| st.val[*v as usize].is_none() && (bit(*v) || matches!(s.honest[*v as usize], Some(x) if own.contains(&x)))).collect()
            };
            let alts: Vec<(Sin<La, false>, Vec<Fp>)> = [(pos ^ 1, leaf, s), (pos ^ 2, leaf, s), (pos, leaf - Fp::one(), s), (pos, leaf, [s[0] - Fp::one(), s[1]]), (pos, leaf, [s[0], s[1] - Fp::one()])]
                .iter()
                .map(|(p, l, s)| (sin(Op::Path(*p, *s, par)), vec![*l, root(*p, *l, *s)]))
                .collect();
            decide_alts(cx, &format!("path {} {}", pos, par), &sin::<La, false>(Op::Path(pos, s, par)), k, vec![leaf, root(pos, leaf, s)], 1, &cells, &alts);
        }
    }
}
fn inner(pos: u32, leaf: Fp, s: Fp) -> Fp {
    if pos & 1 == 0 {
        layer(0, leaf, s)
    } else {
        layer(0, s, leaf)
    }
}
fn root(pos: u32, leaf: Fp, s: [Fp; 2]) -> Fp {
    let n = inner(pos, leaf, s[0]);
    if pos & 2 == 0 {
        layer(1, n, s[1])
    } else {
        layer(1, s[1], n)
    }
}
/// generic, below 2^120
fn nth_small(i: u64) -> Fp {
    of_bits(&bits(nth(60 + i), 120))
}
