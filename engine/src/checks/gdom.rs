//! Fixed bases and Sinsemilla domains for the gadgets.
use ff::{Field, PrimeField};
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{BaseFieldElem, FixedPoint, FullScalar, ShortScalar, H, NUM_WINDOWS, NUM_WINDOWS_SHORT};
use halo2_gadgets::ecc::FixedPoints;
use halo2_gadgets::sinsemilla::{CommitDomains, HashDomains};
use pasta_curves::{arithmetic::CurveAffine, arithmetic::CurveExt, pallas};

/// [(k+2) 8^w] B, and [k 8^w - sum] B in the last window
pub fn window(base: pallas::Affine, w: usize, n: usize) -> Vec<pallas::Affine> {
    let eight = pallas::Scalar::from(8);
    let two = pallas::Scalar::from(2);
    let sum = (0..n - 1).fold(pallas::Scalar::zero(), |a, j| a + two.pow_vartime([3 * j as u64 + 1, 0, 0, 0]));
    (0..H as u64)
        .map(|k| {
            let p = eight.pow_vartime([w as u64, 0, 0, 0]);
            let s = if w + 1 < n { pallas::Scalar::from(k + 2) * p } else { pallas::Scalar::from(k) * p - sum };
            (base * s).to_affine()
        })
        .collect()
}
fn ys(pts: &[pallas::Affine]) -> Vec<pallas::Base> {
    pts.iter().map(|p| *p.coordinates().unwrap().y()).collect()
}
/// the smallest z: z + y is a square and z - y is none, for every y
pub fn find_z(pts: &[pallas::Affine]) -> u64 {
    let ys = ys(pts);
    (0u64..)
        .find(|z| {
            let z = pallas::Base::from(*z);
            ys.iter().all(|y| bool::from((z - y).sqrt().is_none()) && bool::from((z + y).sqrt().is_some()))
        })
        .unwrap()
}
fn us(pts: &[pallas::Affine], z: u64) -> [[u8; 32]; H] {
    let mut o = [[0; 32]; H];
    for (i, y) in ys(pts).iter().enumerate() {
        o[i] = (*y + pallas::Base::from(z)).sqrt().unwrap().to_repr();
    }
    o
}
pub fn base() -> pallas::Affine {
    pallas::Point::generator().to_affine()
}
pub fn blind() -> pallas::Affine {
    pallas::Point::hash_to_curve("hv")(b"R").to_affine()
}
pub fn dom_q() -> pallas::Affine {
    pallas::Point::hash_to_curve("hv")(b"Q").to_affine()
}
/// prints the table for gdom_z.rs
pub fn print_zs() {
    for (name, b, n) in [("BASE", base(), NUM_WINDOWS), ("SHORT", base(), NUM_WINDOWS_SHORT), ("BLIND", blind(), NUM_WINDOWS)] {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out = std::sync::Mutex::new(vec![0u64; n]);
        std::thread::scope(|s| {
            for _ in 0..5 {
                s.spawn(|| loop {
                    let w = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if w >= n {
                        return;
                    }
                    let z = find_z(&window(b, w, n));
                    out.lock().unwrap()[w] = z;
                });
            }
        });
        println!("pub const {}: [u64; {}] = {:?};", name, n, out.into_inner().unwrap());
    }
}
pub const BASE: [u64; 85] = [43655, 109180, 61855, 22792, 14323, 49340, 44106, 6761, 47940, 79582, 3365, 51667, 23557, 71715, 72411, 81323, 42306, 170594, 153399, 123967, 45210, 33828, 35916, 41584, 6170, 11193, 33522, 172258, 14241, 49210, 116579, 9614, 3395, 72959, 19163, 65943, 73370, 34409, 64584, 105594, 55203, 153173, 1684, 45351, 94119, 122571, 34870, 23350, 216891, 6656, 38186, 119457, 14327, 48142, 8340, 38666, 196327, 39318, 236217, 45314, 25824, 201273, 246768, 146377, 20458, 126526, 472656, 207233, 182140, 28692, 68225, 53602, 159006, 140116, 88050, 45619, 58608, 177089, 113359, 36185, 195431, 2923, 74622, 20536, 4210];
pub const SHORT: [u64; 22] = [43655, 109180, 61855, 22792, 14323, 49340, 44106, 6761, 47940, 79582, 3365, 51667, 23557, 71715, 72411, 81323, 42306, 170594, 153399, 123967, 45210, 47381];
pub const BLIND: [u64; 85] = [26094, 5451, 36137, 50901, 31246, 34792, 148054, 33137, 141864, 9131, 45691, 89124, 27792, 68189, 63997, 87774, 20991, 3913, 72678, 16414, 13528, 55858, 58689, 149770, 146342, 21905, 85752, 113930, 3329, 151215, 78849, 52344, 1897, 29050, 39519, 5403, 284732, 37982, 48997, 63715, 118192, 108229, 95515, 9919, 4243, 117668, 123961, 24693, 27518, 6894, 49982, 36872, 69223, 55818, 3322, 62773, 29018, 25001, 7792, 18894, 196840, 3776, 27976, 191947, 25707, 25935, 4742, 42531, 13559, 182141, 45003, 38078, 76501, 31799, 107407, 25856, 15817, 75568, 21884, 60478, 15299, 11992, 152691, 60482, 67548];
type Us = Vec<[[u8; 32]; H]>;
lazy_static::lazy_static! {
    static ref U_BASE: Us = (0..NUM_WINDOWS).map(|w| us(&window(base(), w, NUM_WINDOWS), BASE[w])).collect();
    static ref U_SHORT: Us = (0..NUM_WINDOWS_SHORT).map(|w| us(&window(base(), w, NUM_WINDOWS_SHORT), SHORT[w])).collect();
    static ref U_BLIND: Us = (0..NUM_WINDOWS).map(|w| us(&window(blind(), w, NUM_WINDOWS), BLIND[w])).collect();
}
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Bases;
#[derive(Debug, Eq, PartialEq, Clone)]
pub enum Full {
    Base,
    Blind,
}
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Short;
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct BaseField;
impl FixedPoint<pallas::Affine> for Full {
    type FixedScalarKind = FullScalar;
    fn generator(&self) -> pallas::Affine {
        match self {
            Full::Base => base(),
            Full::Blind => blind(),
        }
    }
    fn u(&self) -> Us {
        match self {
            Full::Base => U_BASE.clone(),
            Full::Blind => U_BLIND.clone(),
        }
    }
    fn z(&self) -> Vec<u64> {
        match self {
            Full::Base => BASE.to_vec(),
            Full::Blind => BLIND.to_vec(),
        }
    }
}
impl FixedPoint<pallas::Affine> for Short {
    type FixedScalarKind = ShortScalar;
    fn generator(&self) -> pallas::Affine {
        base()
    }
    fn u(&self) -> Us {
        U_SHORT.clone()
    }
    fn z(&self) -> Vec<u64> {
        SHORT.to_vec()
    }
}
impl FixedPoint<pallas::Affine> for BaseField {
    type FixedScalarKind = BaseFieldElem;
    fn generator(&self) -> pallas::Affine {
        base()
    }
    fn u(&self) -> Us {
        U_BASE.clone()
    }
    fn z(&self) -> Vec<u64> {
        BASE.to_vec()
    }
}
impl FixedPoints<pallas::Affine> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = BaseField;
}
#[derive(Debug, Clone, Eq, PartialEq)]
pub struct HashDom;
impl HashDomains<pallas::Affine> for HashDom {
    #[allow(non_snake_case)]
    fn Q(&self) -> pallas::Affine {
        dom_q()
    }
}
#[derive(Debug, Clone, Eq, PartialEq)]
pub struct CommitDom;
impl CommitDomains<pallas::Affine, Bases, HashDom> for CommitDom {
    fn r(&self) -> Full {
        Full::Blind
    }
    fn hash_domain(&self) -> HashDom {
        HashDom
    }
}
