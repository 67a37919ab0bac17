//! P12: the Blake2b transcript binds every absorbed item.
use super::util::*;
use crate::core::*;
use crate::symgroup::{G, GA};
use blake2b_simd::rec;
use ff::{Field, FromUniformBytes, PrimeField};
use group::{Group, GroupEncoding};
use halo2_proofs::transcript::*;
use pasta_curves::arithmetic::CurveAffine;
use pasta_curves::Fp;

/// one transcript operation
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Op {
    P,
    S,
    C,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tok {
    B(u8),
    /// part of an item: x, y, compressed point or scalar
    V(usize, char),
}
#[derive(Clone, Copy)]
enum It {
    P(GA),
    S(Fp),
    C,
}
fn seqs(max: usize) -> Vec<Vec<Op>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for o in [Op::P, Op::S, Op::C] {
                let mut t: Vec<Op> = s.clone();
                t.push(o);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn items(h: &mut H, s: &[Op], tag: &str) -> Vec<It> {
    s.iter()
        .enumerate()
        .map(|(i, o)| match o {
            Op::P => It::P(h.gen(&format!("p{}{}", tag, i)).into()),
            Op::S => It::S(h.fp(&format!("s{}{}", tag, i))),
            Op::C => It::C,
        })
        .collect()
}
type W = Blake2bWrite<Vec<u8>, GA, Challenge255<GA>>;
/// absorbs the items and squeezes; `common`: items not part of the proof
fn write(its: &[It], common: &[bool]) -> (Vec<u8>, Vec<Fp>, Vec<rec::Call>) {
    rec::start();
    let mut t: W = Blake2bWrite::init(vec![]);
    let mut ch = vec![];
    for (i, c) in its.iter().zip(common) {
        match (i, c) {
            (It::P(p), false) => t.write_point(*p).unwrap(),
            (It::P(p), true) => t.common_point(*p).unwrap(),
            (It::S(s), false) => t.write_scalar(*s).unwrap(),
            (It::S(s), true) => t.common_scalar(*s).unwrap(),
            (It::C, _) => ch.push(t.squeeze_challenge().get_scalar()),
        }
    }
    ch.push(t.squeeze_challenge().get_scalar());
    let calls = rec::stop();
    (t.finalize(), ch, calls)
}
fn read(h: &mut H, proof: &[u8], its: &[It], common: &[bool]) -> (Vec<Fp>, Vec<rec::Call>) {
    rec::start();
    let mut t = Blake2bRead::<_, GA, Challenge255<GA>>::init(proof);
    let mut ch = vec![];
    for (i, c) in its.iter().zip(common) {
        match (i, c) {
            (It::P(p), false) => {
                let q = t.read_point();
                match q {
                    Ok(q) => h.gaeq("point read back", q, *p),
                    Err(e) => h.ok(&format!("point read back: {}", e), false),
                }
            }
            (It::P(p), true) => t.common_point(*p).unwrap(),
            (It::S(s), false) => match t.read_scalar() {
                Ok(x) => h.ok("scalar read back", x.to_repr() == s.to_repr()),
                Err(e) => h.ok(&format!("scalar read back: {}", e), false),
            },
            (It::S(s), true) => t.common_scalar(*s).unwrap(),
            (It::C, _) => ch.push(t.squeeze_challenge().get_scalar()),
        }
    }
    ch.push(t.squeeze_challenge().get_scalar());
    (ch, rec::stop())
}
/// The bytes as a function of the items: a position holding the encoding of a part of an item stands for it.
fn template(bytes: &[u8], its: &[It]) -> Vec<Tok> {
    let mut known: Vec<([u8; 32], Tok)> = vec![];
    for (i, it) in its.iter().enumerate() {
        match it {
            It::P(p) => {
                let c = p.coordinates().unwrap();
                known.push((c.x().to_repr(), Tok::V(i, 'x')));
                known.push((c.y().to_repr(), Tok::V(i, 'y')));
                // the encodings of x and of a point with even y coincide; either reading is a function of the item
                known.push((p.to_bytes(), Tok::V(i, 'e')));
            }
            It::S(s) => known.push((s.to_repr(), Tok::V(i, 's'))),
            It::C => {}
        }
    }
    let mut r = vec![];
    let mut at = 0;
    'o: while at < bytes.len() {
        for (k, t) in &known {
            if bytes[at..].starts_with(k) {
                r.push(*t);
                at += 32;
                continue 'o;
            }
        }
        r.push(Tok::B(bytes[at]));
        at += 1;
    }
    r
}
fn tlen(t: &[Tok]) -> usize {
    t.iter().map(|x| if let Tok::B(_) = x { 1 } else { 32 }).sum()
}
/// "two item sequences with these templates are hashed alike though they differ"
fn collision(a: &[Tok], b: &[Tok], sa: &[Op], sb: &[Op]) -> String {
    let mut s = String::from("(set-logic QF_BV)\n");
    for (n, sq) in [("a", sa), ("b", sb)] {
        for (i, o) in sq.iter().enumerate() {
            match o {
                Op::P => {
                    for c in ["x", "y", "e"] {
                        s += &format!("(declare-const {}{}{} (_ BitVec 256))\n", n, i, c);
                    }
                }
                Op::S => s += &format!("(declare-const {}{}s (_ BitVec 256))\n", n, i),
                Op::C => {}
            }
        }
    }
    // bytes little-endian: build both as concatenations
    let cat = |n: &str, t: &[Tok]| {
        let mut r = String::from("(concat #x00");
        for x in t {
            match x {
                Tok::B(b) => r += &format!(" #x{:02x}", b),
                Tok::V(i, c) => r += &format!(" {}{}{}", n, i, c),
            }
        }
        r + ")"
    };
    s += &format!("(assert (= {} {}))\n", cat("a", a), cat("b", b));
    if sa == sb {
        // the compressed encoding determines the point and conversely
        let mut d = String::from("(or false");
        for (i, o) in sa.iter().enumerate() {
            match o {
                Op::P => {
                    s += &format!("(assert (= (= a{i}e b{i}e) (and (= a{i}x b{i}x) (= a{i}y b{i}y))))\n", i = i);
                    d += &format!(" (not (= a{i}e b{i}e))", i = i);
                }
                Op::S => d += &format!(" (not (= a{i}s b{i}s))", i = i),
                Op::C => {}
            }
        }
        s += &format!("(assert {}))\n", d);
    }
    s + "(check-sat)\n"
}
/// concrete candidates for a collision
fn replay_pairs(h: &mut H, sa: &[Op], sb: &[Op]) {
    let p: GA = h.gen("pr").into();
    let q: GA = h.gen("qr").into();
    let m: GA = (-G::from(p)).into();
    let s = h.konst("sr");
    let pts = [p, m, q];
    let scs = [s, -s, s + Fp::one(), Fp::zero()];
    let all = |sq: &[Op]| {
        let mut r: Vec<Vec<It>> = vec![vec![]];
        for o in sq {
            let mut n = vec![];
            for x in &r {
                match o {
                    Op::P => n.extend(pts.iter().map(|p| [&x[..], &[It::P(*p)]].concat())),
                    Op::S => n.extend(scs.iter().map(|p| [&x[..], &[It::S(*p)]].concat())),
                    Op::C => n.push([&x[..], &[It::C]].concat()),
                }
            }
            r = n;
        }
        r
    };
    let mut seen: std::collections::HashMap<[u8; 32], Vec<u8>> = Default::default();
    for sq in [sa, sb] {
        for its in all(sq) {
            let mut id = vec![];
            for i in &its {
                match i {
                    It::P(p) => {
                        id.push(1);
                        id.extend(p.to_bytes())
                    }
                    It::S(p) => {
                        id.push(2);
                        id.extend(p.to_repr())
                    }
                    It::C => id.push(0),
                }
            }
            let (_, ch, _) = write(&its, &vec![true; its.len()]);
            let last = ch.last().unwrap().to_repr();
            if let Some(o) = seen.insert(last, id.clone()) {
                h.ok(&format!("{:?} / {:?}: two different histories give the same challenge", sa, sb), o == id);
            }
        }
    }
}

pub fn p12(cx: &mut Cx) {
    cx.functions(&["Blake2bWrite::{init,common_point,common_scalar,write_point,write_scalar,squeeze_challenge}", "Blake2bRead::{init,common_point,common_scalar,read_point,read_scalar,squeeze_challenge}", "Challenge255::{new,get_scalar}", "Transcript::squeeze_challenge_scalar"]);
    let max = if tier_thorough() { 5 } else { 4 };
    cx.bound(&format!("histories of up to {} operations before a challenge", max));
    cx.assume("BLAKE2b-512 is collision resistant and unpredictable");
    let all = seqs(max);
    for (n, sq) in all.iter().enumerate() {
        cx.run(&format!("history {:?}", sq), |h| {
            h.policy = PcPolicy::Path;
            let its = items(h, sq, "");
            let mask = |m: usize| -> Vec<bool> { (0..sq.len()).map(|i| m >> i & 1 == 1).collect() };
            let mut first: Option<(Vec<Tok>, Vec<Fp>)> = None;
            for m in [0usize, usize::MAX, n * 7 + 1] {
                let common = mask(m);
                let (proof, ch, calls) = write(&its, &common);
                let (ch2, calls2) = read(h, &proof, &its, &common);
                // the proof is the concatenation of the written items
                let mut want = vec![];
                for (i, c) in its.iter().zip(&common) {
                    match (i, c) {
                        (It::P(p), false) => want.extend(p.to_bytes()),
                        (It::S(s), false) => want.extend(s.to_repr()),
                        _ => {}
                    }
                }
                h.ok("proof bytes", proof == want);
                h.ok("one hash per challenge", calls.len() == ch.len() && calls2.len() == ch2.len());
                h.ok("same challenges on both sides", ch.iter().zip(&ch2).all(|(a, b)| a.to_repr() == b.to_repr()));
                for (a, b) in calls.iter().zip(&calls2) {
                    h.ok("same hash input on both sides", a.input == b.input && a.personal == b.personal && !a.keyed);
                    h.ok("64-byte digest", a.hash_length == 64);
                    h.ok("personalised", a.personal == *b"Halo2-Transcript");
                }
                // a challenge is the whole digest reduced
                for (c, x) in calls.iter().zip(&ch) {
                    let mut d = [0u8; 64];
                    d.copy_from_slice(&c.output);
                    h.ok("challenge is the reduced digest", Fp::from_uniform_bytes(&d).to_repr() == x.to_repr());
                }
                let t = template(&calls.last().unwrap().input, &its);
                match &first {
                    None => first = Some((t, ch)),
                    Some((f, c)) => {
                        h.ok("absorbing an item and writing it are the same to the hash", *f == t && c.iter().zip(&ch).all(|(a, b)| a.to_repr() == b.to_repr()));
                    }
                }
            }
            let (ta, _) = first.unwrap();
            // no other history of at most this length is hashed alike
            for (k, sb) in all[..=n].iter().enumerate() {
                let ib = items(h, sb, &format!("'{}_", k));
                let (_, _, calls) = write(&ib, &vec![true; sb.len()]);
                let tb = template(&calls.last().unwrap().input, &ib);
                if tlen(&ta) != tlen(&tb) {
                    h.ok("lengths differ", sb != sq);
                    continue;
                }
                if h.mode == Mode::Sym {
                    h.unsat(&format!("{:?} and {:?} hashed alike", sq, sb), collision(&ta, &tb, sq, sb));
                } else {
                    replay_pairs(h, sq, sb);
                }
            }
        });
    }
    cx.run("identity and errors", |h| {
        let mut t: W = Blake2bWrite::init(vec![]);
        h.ok("identity written", t.write_point(GA::from(G::identity())).is_err());
        h.ok("identity absorbed", t.common_point(GA::from(G::identity())).is_err());
        let z = [0u8; 32];
        let mut t = Blake2bRead::<_, GA, Challenge255<GA>>::init(&z[..]);
        h.ok("identity read", t.read_point().is_err());
        h.ok("identity absorbed by the reader", t.common_point(GA::from(G::identity())).is_err());
        let mut m = (-Fp::one()).to_repr();
        for d in 0..4u8 {
            if d > 0 {
                m[0] += 1;
            }
            let mut t = Blake2bRead::<_, GA, Challenge255<GA>>::init(&m[..]);
            h.ok("canonical scalars only", t.read_scalar().is_ok() == (d == 0));
        }
        for n in 0..32 {
            let mut t = Blake2bRead::<_, GA, Challenge255<GA>>::init(&m[..n]);
            h.ok("short scalar", t.read_scalar().is_err());
            let b = GA::from(h.gen("g")).to_bytes();
            let mut t = Blake2bRead::<_, GA, Challenge255<GA>>::init(&b[..n]);
            h.ok("short point", t.read_point().is_err());
        }
        let mut t: W = Blake2bWrite::init(vec![]);
        let a = t.squeeze_challenge_scalar::<()>();
        let b = t.squeeze_challenge_scalar::<()>();
        h.ok("consecutive challenges differ", a.to_repr() != b.to_repr());
        let _ = (rot(0), Fp::ONE);
    });
}
